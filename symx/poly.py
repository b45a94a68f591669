"""Exact commutative algebra for symbolic execution.

RF = rational function num / prod(f_i^k_i), num a sparse Laurent polynomial
(dict: packed exponent vector -> int/Fraction), the f_i interned primitive
polynomials.  Variables are either base symbols, algebraic atoms w with
w^m = RF, or transcendental atoms (log, exp, uninterpreted).
"""
from fractions import Fraction
from math import gcd
import math

SH = 16
HALF = 1 << (SH - 1)
MASK = (1 << SH) - 1


class Unsupported(Exception):
    """The code left the fragment that the encoder supports (inconclusive)."""


class Var:
    __slots__ = ("name", "idx", "kind", "deg", "val", "positive", "nonneg",
                 "meta", "one")

    def __init__(self, name, idx, kind, deg=0, val=None, positive=False,
                 nonneg=False, meta=None):
        self.name, self.idx, self.kind = name, idx, kind
        self.deg, self.val = deg, val
        self.positive, self.nonneg = positive, nonneg or positive
        self.meta = meta


class Kernel:
    """Variable and factor tables of one harness instance."""

    def __init__(self):
        self.vars = []
        self.byname = {}
        self.alg = {}        # idx -> Var for algebraic atoms
        self.atomkey = {}
        self.nn = set()            # polynomials required to be >= 0
        self.factors = []
        self.factorid = {}
        self.bias = 0
        self.ecache = {}
        self.defs = {}       # idx -> Var for named divisors
        self.batch = {}      # named entries of one matrix

    def new(self, name, **kw):
        if name in self.byname:
            return self.byname[name]
        v = Var(name, len(self.vars), **kw)
        self.vars.append(v)
        self.byname[name] = v
        self.bias = sum(HALF << (SH * i) for i in range(len(self.vars)))
        if v.kind == "alg":
            self.alg[v.idx] = v
        elif v.kind == "def":
            self.defs[v.idx] = v
        return v


K = Kernel()


def reset():
    global K
    K = Kernel()
    return K


# ---------------------------------------------------------------- monomials
def exps(m):
    """list of (idx, exp) of the packed monomial m"""
    r = K.ecache.get(m)
    if r is not None:
        return r
    b = m + K.bias
    d = b ^ K.bias
    out = []
    while d:
        i = ((d & -d).bit_length() - 1) // SH
        out.append((i, ((b >> (SH * i)) & MASK) - HALF))
        d &= ~(MASK << (SH * i))
    if len(K.ecache) > 400000:
        K.ecache.clear()
    K.ecache[m] = out
    return out


def expof(m, i):
    return (((m + K.bias) >> (SH * i)) & MASK) - HALF


def mono(i, e=1):
    return e << (SH * i) if e >= 0 else -((-e) << (SH * i))


# -------------------------------------------------------------- polynomials
def nrm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else -c
        else:
            v = v + c if s == 1 else v - c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) * len(b) > MAXWORK[0]:
        raise Unsupported("polynomial too large: %d x %d" % (len(a), len(b)))
    if len(a) == 1:
        (ma, ca), = a.items()
        if ca == 1:
            return {m + ma: c for m, c in b.items()} if ma else dict(b)
        return {m + ma: nrm(c * ca) for m, c in b.items()}
    r = {}
    get = r.get
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = ma + mb
            v = get(m)
            r[m] = ca * cb if v is None else v + ca * cb
    return {m: nrm(c) for m, c in r.items() if c != 0}


MAXWORK = [60_000_000]


def pscale(a, c):
    if c == 1:
        return a
    return {m: nrm(v * c) for m, v in a.items()}


def ppow(a, k):
    r = {0: 1}
    while k:
        if k & 1:
            r = pmul(r, a)
        k >>= 1
        if k:
            a = pmul(a, a)
    return r


def box(p):
    """per-variable (min,max) exponents, only for variables present"""
    lo, hi = {}, {}
    first = True
    for m in p:
        es = dict(exps(m))
        if first:
            lo, hi = dict(es), dict(es)
            first = False
            continue
        for i, e in es.items():
            if i not in lo:
                lo[i] = min(0, e)
                hi[i] = max(0, e)
            else:
                if e < lo[i]:
                    lo[i] = e
                if e > hi[i]:
                    hi[i] = e
        for i in lo:
            if i not in es:
                if lo[i] > 0:
                    lo[i] = 0
                if hi[i] < 0:
                    hi[i] = 0
    return lo, hi


def content(p):
    """rational content c>0 (gcd nums / lcm dens) """
    num, den = 0, 1
    for c in p.values():
        if isinstance(c, int):
            num = gcd(num, c)
        else:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        if num == 1 and den == 1 and False:
            break
    return Fraction(num, den)


def pdivexact(a, f):
    """a / f if exact (as plain Laurent polynomials) else None"""
    if not a:
        return {}
    lf = max(f)
    cf = f[lf]
    if len(f) == 1:
        return {m - lf: nrm(Fraction(c) / cf) for m, c in a.items()}
    if len(a) < len(f) and len(a) == 1:
        return None
    # trailing terms must divide as well: quick rejects through boxes
    alo, ahi = box(a)
    flo, fhi = box(f)
    keys = set(alo) | set(flo)
    for i in keys:
        if ahi.get(i, 0) - alo.get(i, 0) < fhi.get(i, 0) - flo.get(i, 0):
            return None
    lo = {i: alo.get(i, 0) - flo.get(i, 0) for i in keys}
    hi = {i: ahi.get(i, 0) - fhi.get(i, 0) for i in keys}
    rest = [(m, c) for m, c in f.items() if m != lf]
    rem = dict(a)
    q = {}
    import heapq
    heap = [-m for m in rem]
    heapq.heapify(heap)
    steps = 0
    while rem:
        while True:
            m = -heap[0]
            if m in rem:
                break
            heapq.heappop(heap)
        c = rem.pop(m)
        heapq.heappop(heap)
        qm = m - lf
        es = dict(exps(qm))
        for i in es:
            if i not in lo:
                return None
        for i in lo:
            e = es.get(i, 0)
            if e < lo[i] or e > hi[i]:
                return None
        qc = nrm(Fraction(c) / cf) if not (isinstance(c, int) and isinstance(
            cf, int) and c % cf == 0) else c // cf
        q[qm] = qc
        for fm, fc in rest:
            t = qm + fm
            v = rem.get(t)
            if v is None:
                rem[t] = nrm(-qc * fc)
                heapq.heappush(heap, -t)
            else:
                v = v - qc * fc
                if v == 0:
                    del rem[t]
                else:
                    rem[t] = nrm(v)
        steps += 1
        if steps > 20000:
            return None
    return q


# ------------------------------------------------------- rational functions
class RF:
    __slots__ = ("num", "den", "av")
    # num: dict ; den: dict factorid->exp>0 ; av: frozenset of algebraic idx

    def __init__(self, num, den=None, av=None):
        self.num = num
        self.den = den or {}
        if av is None:
            av = algvars(num)
        self.av = av

    def is_zero(self):
        return not self.num

    def const(self):
        """Fraction/int value if constant else None"""
        if self.den:
            return None
        if not self.num:
            return 0
        if len(self.num) == 1 and 0 in self.num:
            return self.num[0]
        return None

    def __repr__(self):
        return show(self)

    def key(self):
        return (frozenset(self.num.items()), frozenset(self.den.items()))


def algvars(p):
    if not K.alg or not p:
        return frozenset()
    out = set()
    todo = list(K.alg)
    for i in todo:
        for m in p:
            if expof(m, i):
                out.add(i)
                break
    return frozenset(out)


def rf(c):
    if isinstance(c, RF):
        return c
    c = nrm(c)
    return RF({0: c} if c != 0 else {}, None, frozenset())


def var(v, e=1):
    return RF({mono(v.idx, e): 1}, None,
              frozenset([v.idx]) if v.kind == "alg" else frozenset())


def fpoly(fid):
    return K.factors[fid]


def intern_factor(p):
    """p primitive with positive leading coeff and no monomial content"""
    key = frozenset(p.items())
    fid = K.factorid.get(key)
    if fid is None:
        fid = len(K.factors)
        K.factors.append(p)
        K.factorid[key] = fid
    return fid


def split_poly(p):
    """p = c * mono * primitive(no monomial content, leading coeff>0)"""
    c = content(p)
    lead = p[max(p)]
    if lead < 0:
        c = -c
    lo, _ = box(p)
    m = 0
    for i, e in lo.items():
        if e:
            m += mono(i, e)
    inv = 1 / Fraction(c)
    q = {k - m: nrm(v * inv) for k, v in p.items()}
    return nrm(c), m, q


def cancel(num, den):
    """try to divide num by each den factor"""
    if not num or not den:
        return num, ({} if not num else den)
    den = dict(den)
    for f in list(den):
        fp = K.factors[f]
        if len(num) < 2 and len(fp) > 1:
            continue
        while f in den:
            q = pdivexact(num, fp)
            if q is None:
                break
            num = q
            den[f] -= 1
            if den[f] == 0:
                del den[f]
    return num, den


def mkrf(num, den, av=None):
    num, den = cancel(num, den)
    return RF(num, den, av)


def radd(a, b, s=1):
    if not b.num:
        return a
    if not a.num:
        return b if s == 1 else rneg(b)
    if a.den == b.den:
        n = padd(a.num, b.num, s)
        return mkrf(n, a.den if n else {}, (a.av | b.av) if n else frozenset())
    den = dict(a.den)
    for f, e in b.den.items():
        if den.get(f, 0) < e:
            den[f] = e
    na, nb = a.num, b.num
    xa, xb = RF(na, None, a.av), RF(nb, None, b.av)
    for f, e in den.items():
        d = e - a.den.get(f, 0)
        if d:
            xa = rmul(xa, facpow(f, d))
        d = e - b.den.get(f, 0)
        if d:
            xb = rmul(xb, facpow(f, d))
    if xa.den or xb.den:      # reduction of atoms introduced denominators
        z = radd(xa, xb, s)
        return rmul_den(z, den)
    n = padd(xa.num, xb.num, s)
    return mkrf(n, den if n else {}, (xa.av | xb.av) if n else frozenset())


def rmul_den(z, den):
    d = dict(z.den)
    for f, e in den.items():
        d[f] = d.get(f, 0) + e
    return mkrf(z.num, d if z.num else {}, z.av)


_fp = {}


def facpow(f, e):
    p = K.factors[f]
    r = RF(dict(p), None)
    out = r
    for _ in range(e - 1):
        out = rmul(out, r)
    return out


def rneg(a):
    return RF({m: -c for m, c in a.num.items()}, a.den, a.av)


def rmul(a, b):
    if not a.num or not b.num:
        return rf(0)
    num = pmul(a.num, b.num)
    if a.den or b.den:
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
    else:
        den = {}
    common = a.av & b.av
    if common:
        r = reduce_alg(num, common)
        if r.den or den:
            for f, e in r.den.items():
                den[f] = den.get(f, 0) + e
        return mkrf(r.num, den, r.av) if den else RF(r.num, {}, r.av)
    if den:
        return mkrf(num, den, a.av | b.av)
    return RF(num, {}, a.av | b.av)


def reduce_alg(num, cand=None):
    """rewrite w^e, e outside [0,deg), for algebraic atoms"""
    if cand is None:
        cand = algvars(num)
    # highest index first: later atoms are defined over earlier ones
    for i in sorted(cand, reverse=True):
        v = K.alg[i]
        groups = {}
        hit = False
        for m, c in num.items():
            e = expof(m, i)
            k, e0 = divmod(e, v.deg)
            if k:
                hit = True
                m = m - mono(i, e) + mono(i, e0)
            groups.setdefault(k, {})
            g = groups[k]
            g[m] = g.get(m, 0) + c
        if not hit:
            continue
        out = rf(0)
        for k, g in groups.items():
            g = {m: nrm(c) for m, c in g.items() if c != 0}
            if not g:
                continue
            part = RF(g, None)
            # other candidate atoms may still be unreduced inside g
            rest = [j for j in part.av if j != i]
            if rest:
                part = reduce_alg(g, rest)
            if k > 0:
                part = rmul(part, rpow(v.val, k))
            elif k < 0:
                part = rmul(part, rpow(rinv(v.val), -k))
            out = radd(out, part)
        if out.den or True:
            return out
    return RF(num, None)


def rinv(a):
    if not a.num:
        raise ZeroDivisionError("symbolic division by zero")
    c, m, q = split_poly(a.num)
    num = {0: 1}
    for f, e in a.den.items():
        num = pmul(num, ppow(K.factors[f], e)) if e > 1 or len(num) > 1 else \
            dict(K.factors[f])
    num = {k - m: nrm(v / Fraction(c)) for k, v in num.items()}
    r = reduce_alg(num, None) if K.alg else RF(num, None, frozenset())
    if len(q) == 1 and 0 in q:
        return r
    if len(q) > LAZY[0]:
        v, sg = def_atom(q)
        return rmul(r, RF({mono(v.idx, -1): sg}, None, frozenset()))
    den = dict(r.den)
    f = intern_factor(q)
    den[f] = den.get(f, 0) + 1
    return mkrf(r.num, den, r.av)


# ------------------------------------------------- named (lazy) divisors
LAZY = [6]


def def_atom(q):
    """variable naming the primitive polynomial q (so that 1/q is a Laurent
    monomial); q is re-expanded on demand by expand()"""
    key = ("def", frozenset(q.items()))
    v = K.atomkey.get(key)
    if v is None:
        sg = 1 if key[1] in K.nn else known_sign(q)
        if sg == -1:
            q2 = {m: -c for m, c in q.items()}
        else:
            q2 = q
        v = K.new("d%d" % len(K.vars), kind="def", val=RF(q2, None),
                  positive=sg is not None)
        v.meta = -1 if sg == -1 else 1
        K.atomkey[key] = v
    return v, v.meta


def name_rf(r, limit, batch=None):
    """variable naming the value r when writing it out is expensive; r is
    re-expanded on demand by expand()"""
    size = len(r.num) + sum(len(K.factors[f]) for f in r.den)
    if size <= limit:
        return r
    neg = r.num[max(r.num)] < 0
    if neg:
        r = rneg(r)
    key = ("named", r.key())
    v = K.atomkey.get(key)
    if v is None:
        v = K.new("n%d" % len(K.vars), kind="def", val=r)
        v.meta = 0
        K.atomkey[key] = v
        K.batch[v.idx] = batch
    return rneg(var(v)) if neg else var(v)


def defvars(r):
    out = set()
    if not K.defs:
        return out
    for p in [r.num] + [K.factors[f] for f in r.den]:
        for m in p:
            for i, _ in exps(m):
                if i in K.defs:
                    out.add(i)
    return out


def rationalise(r):
    """square roots out of the denominator"""
    for _ in range(12):
        bad = [(max(av), f) for f, av in (
            (f, algvars(K.factors[f])) for f in r.den) if av]
        if not bad:
            return r
        i, f = max(bad)
        w = K.alg[i]
        if w.deg != 2:
            return r
        fp = K.factors[f]
        a = RF({m: c for m, c in fp.items() if not expof(m, i)}, None)
        b = RF({m - mono(i): c for m, c in fp.items() if expof(m, i)}, None)
        if any(expof(m, i) for m in b.num):
            return r
        conj = RF({m: -c if expof(m, i) else c for m, c in fp.items()}, None)
        norm = radd(rmul(a, a), rmul(rmul(b, b), w.val), -1)
        if not norm.num:
            return r
        old, LAZY[0] = LAZY[0], 10 ** 9
        try:
            inv = rinv(norm)
            den = {g: e for g, e in r.den.items() if g != f}
            out = RF(r.num, den, r.av)
            for _ in range(r.den[f]):
                out = rmul(rmul(out, conj), inv)
        finally:
            LAZY[0] = old
        r = out
    return r


def expand(r, limit=4000):
    """replace named quantities by their definitions"""
    named = any(K.defs[i].meta == 0 for i in defvars(r))
    for _ in range(60):
        if named:
            r = rationalise(r)
        ds = defvars(r)
        if not ds:
            return r
        i = max(ds)
        # entries named together go together
        b = K.batch.get(i)
        group = [i] if b is None else sorted(
            (k for k in ds if K.batch.get(k) == b), reverse=True)
        bad = [f for f in r.den if any(expof(m, k) for k in group
                                       for m in K.factors[f])]
        if bad:
            den = {f: e for f, e in r.den.items() if f not in bad}
            out = RF(r.num, den, r.av)
            for f in bad:
                fr = RF(dict(K.factors[f]), None)
                for k in group:
                    fr = subst_def(fr, K.defs[k], limit)
                if named:
                    fr = rationalise(fr)
                old, LAZY[0] = LAZY[0], 10 ** 9
                try:
                    inv = rinv(fr)
                    if named:
                        inv = rationalise(inv)
                    for _ in range(r.den[f]):
                        out = rmul(out, inv)
                finally:
                    LAZY[0] = old
            r = out
        for k in group:
            r = subst_def(r, K.defs[k], limit)
    return r


def subst_def(r, v, limit):
    groups = {}
    i = v.idx
    for m, c in r.num.items():
        e = expof(m, i)
        groups.setdefault(e, {})[m - mono(i, e)] = c
    lo = min(groups) if groups else 0
    lo = min(lo, 0)
    out = rf(0)
    pw = {}
    f = v.val
    for k, g in groups.items():
        t = k - lo
        if t not in pw:
            if len(f.num) ** t > 200 * limit:
                raise Unsupported("expansion too large")
            pw[t] = rpow(f, t)
        if len(g) * len(pw[t].num) > 300 * limit:
            raise Unsupported("expansion too large")
        out = radd(out, rmul(RF(g, None), pw[t]))
    den = dict(r.den)
    for f_, e in out.den.items():
        den[f_] = den.get(f_, 0) + e
    if lo < 0 and out.num:
        c, m, q = split_poly(f.num)
        fid = intern_factor(q)
        num = pscale(out.num, 1 / (Fraction(c) ** (-lo))) if c != 1 else \
            out.num
        if m:
            num = {k - m * (-lo): x for k, x in num.items()}
        for f_, e in f.den.items():
            for _ in range(-lo * e):
                num = pmul(num, K.factors[f_])
        den[fid] = den.get(fid, 0) - lo
        return mkrf(num, den, None)
    return mkrf(out.num, den if out.num else {}, None)


def nonneg(r):
    """syntactically not negative"""
    old, SIGN_HOOK[0] = SIGN_HOOK[0], None
    try:
        return known_sign(r.num) == 1 and all(
            e % 2 == 0 or known_sign(K.factors[f]) == 1
            for f, e in r.den.items())
    finally:
        SIGN_HOOK[0] = old


def unfold_norms(r):
    """squares of named norms as sums of squares"""
    for _ in range(8):
        vs = {i for p in [r.num] + [K.factors[f] for f in r.den] for m in p
              for i, _ in exps(m)
              if K.vars[i].kind == "uf" and K.vars[i].meta[0] == "norm2"}
        if not vs:
            return r
        v = max(vs)
        sq = rf(0)
        for a in K.vars[v].meta[1]:
            sq = radd(sq, rmul(a, a))

        def sp(q):
            out, g = rf(0), {}
            for m, c in q.items():
                e = expof(m, v)
                if e % 2:
                    raise Unsupported("odd power of a norm")
                g.setdefault(e // 2, {})[m - mono(v, e)] = c
            for e, x in g.items():
                out = radd(out, rmul(RF(x, None), rpow(sq, e)))
            return out
        out = sp(r.num)
        for f, e in r.den.items():
            out = rdiv(out, rpow(sp(K.factors[f]), e))
        r = out
    return r


def unify(rs, limit=400):
    """divisors with the same expansion, up to a constant and a monomial, are
    written the same way: one named divisor is eliminated for each"""
    if not K.defs or any(K.defs[i].meta == 0 for r in rs for i in defvars(r)):
        return rs
    try:
        neg, fac = set(), set()
        for r in rs:
            for m in r.num:
                for i, e in exps(m):
                    if e < 0 and i in K.defs:
                        neg.add(i)
            for f in r.den:
                if any(i in K.defs for m in K.factors[f] for i, _ in exps(m)):
                    fac.add(f)
        if not fac and len(neg) < 2 or len(neg) + len(fac) > 24:
            return rs
        groups = {}
        for i, x in [(i, var(K.defs[i])) for i in sorted(neg)] + \
                [(None, RF(dict(K.factors[f]), None)) for f in sorted(fac)]:
            y = expand(x, limit)
            c, m, q = split_poly(y.num)
            k = (frozenset(q.items()), frozenset(y.den.items()))
            groups.setdefault(k, []).append((x, rf(c), m))
        sub = []
        for items in groups.values():
            x0, c0, m0 = items[0]
            for x, c, m in items[1:]:
                ratio = rmul(rdiv(c, c0), RF({m - m0: 1}, None))
                rel = rsub(x, rmul(ratio, x0))
                if rel.den:
                    continue
                used = {i for mm in x0.num for i, _ in exps(mm)}
                for v in sorted((i for i in K.defs if mono(i) in rel.num),
                                reverse=True):
                    if v in used and len(x.num) > 1 or sum(
                            1 for mm in rel.num if expof(mm, v)) > 1:
                        continue
                    rest = dict(rel.num)
                    c1 = rest.pop(mono(v))
                    sub.append((v, pscale(rest, -1 / Fraction(c1))))
                    break
        done = set()
        for v, p in sub:
            if v in done:
                continue
            done.add(v)
            rs = [subst_top(r, v, p) for r in rs]
        return rs
    except Unsupported:
        return rs


def subst_top(r, v, p):
    """the named quantity v replaced by the polynomial p, not inside atoms"""
    def sp(q):
        groups = {}
        for m, c in q.items():
            e = expof(m, v)
            groups.setdefault(e, {})[m - mono(v, e)] = c
        if list(groups) in ([], [0]):
            return RF(dict(q), None)
        out = rf(0)
        for e, g in groups.items():
            out = radd(out, rmul(RF(g, None), rpow(RF(dict(p), None), e)))
        return out
    out = sp(r.num)
    for f, e in r.den.items():
        x = sp(K.factors[f])
        if x.num == K.factors[f]:
            out = rmul_den(out, {f: e})
        else:
            out = rdiv(out, rpow(x, e))
    return out


def is_zero_deep(r):
    if not r.num:
        return True
    if not K.defs or not defvars(r):
        return False
    try:
        r, = unify([r])
        return not expand(r).num
    except Unsupported:
        return False


def rdiv(a, b):
    return rmul(a, rinv(b))


def rpow(a, k):
    if k < 0:
        return rpow(rinv(a), -k)
    r = rf(1)
    while k:
        if k & 1:
            r = rmul(r, a)
        k >>= 1
        if k:
            a = rmul(a, a)
    return r


def rsub(a, b):
    return radd(a, b, -1)


def is_equal(a, b):
    return rsub(a, b).is_zero()


# ------------------------------------------------------------------- atoms
def isqrt_frac(c):
    """exact sqrt of a nonneg Fraction or None"""
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def squarefree_int(n):
    """n = s^2 * f"""
    s, f, p = 1, 1, 2
    while p * p <= n and p < 2000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        s *= p ** (e // 2)
        if e & 1:
            f *= p
        p += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, f
    return s, f * n


def alg_atom(val, deg, nonneg=True, hint="w"):
    key = ("alg", deg, val.key())
    v = K.atomkey.get(key)
    if v is None:
        v = K.new("%s%d" % (hint, len(K.vars)), kind="alg", deg=deg, val=val,
                  nonneg=nonneg)
        K.atomkey[key] = v
    return v


def pos_mono(m):
    """all variables in m known nonneg?"""
    return all(K.vars[i].nonneg for i, _ in exps(m))


def psqrt(p):
    """exact square root of a polynomial with positive leading coeff, or None"""
    lead = max(p)
    es = exps(lead)
    if any(e % 2 for _, e in es):
        return None
    c = isqrt_frac(p[lead])
    if c is None:
        return None
    low = min(p)
    if any(e % 2 for _, e in exps(low)) or isqrt_frac(p[low]) is None:
        return None
    if len(p) > 400:
        return None
    h = sum(mono(i, e // 2) for i, e in es)
    r = {h: nrm(c)}
    rem = padd(p, pmul(r, r), -1)
    lo, hi = box(p)
    n = 0
    while rem:
        m = max(rem)
        q = m - h
        es = dict(exps(q))
        for i, e in es.items():
            if i not in lo or not (lo[i] / 2 <= e <= hi[i] / 2):
                return None
        t = {q: nrm(Fraction(rem[m]) / (2 * c))}
        # (r+t)^2 = r^2 + 2rt + t^2
        rem = padd(rem, pmul(pscale(r, 2), t), -1)
        rem = padd(rem, pmul(t, t), -1)
        if q in r:
            return None
        r = padd(r, t)
        n += 1
        if n > 200:
            return None
    return r


def rsqrt(a, sgn=None):
    """nonneg square root; sgn(RF)->'+'/'-'/None resolves sign of roots"""
    if not a.num:
        return rf(0)
    num = a.num
    c, m, q = split_poly(num)
    # make denominator a perfect square: N/D = N*odd(D) / (D*odd(D))
    outden = {}
    extra = rf(1)
    for f, e in a.den.items():
        if e & 1:
            extra = rmul(extra, facpow(f, 1))
            e += 1
        outden[f] = e // 2
    inside = rmul(RF(num, None, a.av), extra) if a.den else RF(num, None, a.av)
    if inside.den:
        # atom reductions; fall back on an opaque root
        v = alg_atom(a, 2)
        return var(v)
    c, m, q = split_poly(inside.num)
    if c < 0 and len(q) == 1:
        if all(K.vars[i].nonneg or e % 2 == 0 for i, e in exps(m)):
            raise Unsupported("sqrt of a negative quantity")
    if c < 0:
        c, q = -c, {k: -v for k, v in q.items()}
    # rational content
    fr = Fraction(c)
    # sqrt(n/d) = sqrt(n*d)/d
    s, f = squarefree_int(fr.numerator * fr.denominator)
    out = rf(Fraction(s, fr.denominator))
    inner = {0: f}
    # monomial
    mo = 0
    mi = 0
    absneeded = []
    for i, e in exps(m):
        v = K.vars[i]
        if v.nonneg:
            h, r_ = divmod(e, 2)
            mo += mono(i, h)
            mi += mono(i, r_)
        else:
            mi += mono(i, e)
    out = rmul(out, RF({mo: 1}, None))
    if len(q) > 1:
        sq = psqrt(q)
    else:
        sq = {0: 1}
    rest = None
    if sq is not None and mi == 0:
        root = RF(sq, None)
        if len(sq) > 1 or 0 not in sq:
            # |sq|: sign known?
            sg = known_sign(sq)
            if sg is None:
                rest = var(alg_atom(rmul(root, root), 2))
            else:
                rest = root if sg > 0 else rneg(root)
        else:
            rest = rf(1)
        if f != 1:
            rest = rmul(rest, var(alg_atom(rf(f), 2)))
    else:
        # keep fully symbolic: sqrt(f * mono * q)
        if len(q) > LAZY[0]:
            if all(K.vars[i].nonneg or e % 2 == 0 for i, e in exps(m)):
                # the root's definedness condition (recorded by the caller)
                K.nn.add(frozenset(q.items()))
            v, sg = def_atom(q)
            q = {mono(v.idx): sg}
        val = RF(pmul(pmul(inner, {mi: 1}), q), None)
        cst = val.const()
        if cst is not None:
            rest = rf(1) if cst == 1 else var(alg_atom(val, 2))
        else:
            # |x| for pure even monomials: keep x^2 atoms per variable
            rest = var(alg_atom(val, 2))
    out = rmul(out, rest)
    if outden:
        # divide by positive roots of squared denominators: |f|^k ; sign of
        # f must be known positive for odd k
        for fid, e in outden.items():
            fr_ = facpow(fid, e)
            if e & 1 and known_sign(K.factors[fid]) is None:
                w = var(alg_atom(rmul(fr_, fr_), 2))
                out = rdiv(out, w)
            else:
                sg = known_sign(K.factors[fid])
                if e & 1 and sg < 0:
                    fr_ = rneg(fr_)
                out = rdiv(out, fr_)
    return out


SIGN_HOOK = [None]


def known_sign(p):
    """+1/-1 if the sign of the polynomial is syntactically (or by the solver
    hook) known"""
    pos = neg = True
    for m, c in p.items():
        for i, e in exps(m):
            if not K.vars[i].nonneg and e % 2:
                pos = neg = False
                break
        if not pos and not neg:
            break
        if c < 0:
            pos = False
        else:
            neg = False
    if pos:
        return 1
    if neg:
        return -1
    if SIGN_HOOK[0] is not None:
        return SIGN_HOOK[0](p)
    return None


def rroot(a, m):
    """positive m-th root"""
    if m == 1:
        return a
    if m == 2:
        return rsqrt(a)
    if not a.num:
        return rf(0)
    c = a.const()
    if c is not None:
        r = round(float(c) ** (1.0 / m))
        if r ** m == c:
            return rf(r)
    if len(a.num) == 1 and not a.den:
        (mm, cc), = a.num.items()
        es = exps(mm)
        if all(K.vars[i].nonneg for i, e in es):
            mo = mi = 0
            for i, e in es:
                h, r_ = divmod(e, m)
                mo += mono(i, h)
                mi += mono(i, r_)
            out = RF({mo: 1}, None)
            val = RF({mi: cc}, None)
            if val.const() == 1:
                return out
            return rmul(out, var(alg_atom(val, m)))
    return var(alg_atom(a, m))


def rlog(a):
    """log of a positive RF -> RF over LOG atoms"""
    if not a.num:
        raise Unsupported("log of zero")
    c, m, q = split_poly(a.num)
    out = rf(0)
    if c < 0:
        # the argument is positive: only magnitudes matter
        c = -c
        if known_sign(q) != 1:
            q = {k: -v for k, v in q.items()}
    fr = Fraction(c)
    for n, s in ((fr.numerator, 1), (fr.denominator, -1)):
        p = 2
        while n > 1:
            if p * p > n or p > 5000:
                p = n
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            if e:
                out = radd(out, rmul(rf(s * e), log_atom(rf(p))))
            p += 1
    for i, e in exps(m):
        v = K.vars[i]
        if v.kind == "exp":
            t = v.meta
        elif v.kind == "def" and v.positive:
            t = rlog(v.val)
        elif v.kind == "alg":
            t = rmul(rf(Fraction(1, v.deg)), rlog(v.val))
        elif v.positive:
            t = log_atom(var(v))
        else:
            t = None
        if t is None:
            # log(x^e ...) with x of unknown sign: keep |x| = sqrt(x^2)
            if e % 2 == 0:
                t = rmul(rf(Fraction(1, 2)),
                         log_atom(RF({mono(i, 2): 1}, None)))
            else:
                return radd(out, log_atom(_drop(a, c)))
        out = radd(out, rmul(rf(e), t))
    if len(q) > 1 or 0 not in q:
        for g, e in log_factor(q):
            out = radd(out, rmul(rf(e), log_atom(RF(g, None))))
    for f, e in a.den.items():
        g = K.factors[f]
        if known_sign(g) == -1:
            g = {k: -v for k, v in g.items()}
        out = radd(out, rmul(rf(-e), log_atom(RF(g, None))))
    return out


def _drop(a, c):
    return RF(pscale(a.num, 1 / Fraction(c)), a.den, a.av)


def log_factor(q):
    """split q into known factors (denominators seen so far), squares"""
    out = []
    sq = psqrt(q) if len(q) > 1 else None
    if sq is not None:
        sg = known_sign(sq)
        if sg is not None:
            if sg < 0:
                sq = {k: -v for k, v in sq.items()}
            return [(g, 2 * e) for g, e in log_factor(sq)]
    for fp in list(K.factors):
        if len(fp) < 2 or len(fp) > len(q) or fp == q:
            continue
        e = 0
        while True:
            r = pdivexact(q, fp)
            if r is None:
                break
            q = r
            e += 1
        if e:
            g = fp
            if known_sign(g) == -1:
                g = {k: -v for k, v in g.items()}
                if e & 1:
                    q = {k: -v for k, v in q.items()}
            out.append((g, e))
    c, m, q2 = split_poly(q)
    if len(q) > 1 or 0 not in q or q[0] != 1:
        if len(q) == 1 and 0 in q:
            if q[0] < 0:
                # the product is positive: its only odd factor is negative
                odd = [i for i, (g, e) in enumerate(out) if e & 1 and
                       known_sign(g) is None]
                if len(odd) != 1:
                    raise Unsupported("log sign")
                g, e = out[odd[0]]
                out[odd[0]] = ({k: -v for k, v in g.items()}, e)
                q = {0: -q[0]}
            return out + [({0: q[0]}, 1)]
        out.append((q, 1))
    return out


def log_atom(a):
    c = a.const()
    if c == 1:
        return rf(0)
    key = ("log", a.key())
    v = K.atomkey.get(key)
    if v is None:
        v = K.new("log%d" % len(K.vars), kind="log", meta=a,
                  positive=bool(c is not None and c > 1))
        K.atomkey[key] = v
        if a.num and len(a.num) > 1 and not a.den:
            _, _, q = split_poly(a.num)
            intern_factor(q)
    return var(v)


def exp_atom(arg):
    key = ("exp", arg.key())
    v = K.atomkey.get(key)
    if v is None:
        v = K.new("exp%d" % len(K.vars), kind="exp", meta=arg, positive=True)
        K.atomkey[key] = v
    return var(v)


def rexp(a):
    if not a.num:
        return rf(1)
    if a.den:
        return _exp_gen(a)
    out = rf(1)
    for m, c in a.num.items():
        es = exps(m)
        fr = Fraction(c)
        if fr.denominator > 64 or abs(fr.numerator) > 64:
            out = rmul(out, _exp_gen(RF({m: c})))
        elif len(es) == 1 and es[0][1] == 1 and K.vars[es[0][0]].kind == "log":
            base = K.vars[es[0][0]].meta
            out = rmul(out, rpow(rroot(base, fr.denominator), fr.numerator))
        else:
            base = exp_atom(RF({m: Fraction(1, fr.denominator)
                                if fr.denominator > 1 else 1}, None))
            out = rmul(out, rpow(base, fr.numerator))
    return out


def _exp_gen(a):
    # canonical sign so that exp(-x) = 1/exp(x)
    if a.num[max(a.num)] < 0:
        return rinv(_exp_gen(rneg(a)))
    return exp_atom(a)


def uf_atom(name, args, **kw):
    """uninterpreted function application (congruence by normal form)"""
    key = ("uf", name) + tuple(
        x.key() if isinstance(x, RF) else x for x in args)
    v = K.atomkey.get(key)
    if v is None:
        v = K.new("%s_%d" % (name, len(K.vars)), kind="uf",
                  meta=(name, tuple(args)), **kw)
        K.atomkey[key] = v
    return var(v)


# ----------------------------------------------------------- substitution
def evalf(a, env, cache=None, magnitude=False):
    """float evaluation; env: idx -> float for base symbols; magnitude: also
    the sum of the absolute values of the terms"""
    if cache is None:
        cache = {}

    def val(i):
        if i in cache:
            return cache[i]
        v = K.vars[i]
        if v.idx in env:
            r = env[v.idx]
        elif v.kind == "def":
            r = ev(v.val)
        elif v.kind == "alg":
            x = ev(v.val)
            if x < 0 and x > -1e-9:
                x = 0.0
            if x < 0:
                raise ArithmeticError("negative radicand")
            r = x ** (1.0 / v.deg)
        elif v.kind == "log":
            r = math.log(ev(v.meta))
        elif v.kind == "exp":
            r = math.exp(ev(v.meta))
        elif v.kind == "uf":
            f = UF_EVAL.get(v.meta[0])
            if f is None:
                raise ArithmeticError("no evaluator for " + v.meta[0])
            r = f(*[ev(x) if isinstance(x, RF) else x for x in v.meta[1]])
        else:
            raise ArithmeticError("unbound " + v.name)
        cache[i] = r
        return r

    def pe(p, mag=False):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            for i, e in exps(m):
                t *= val(i) ** e
            s += abs(t) if mag else t
        return s

    def ev(x):
        s = pe(x.num)
        for f, e in x.den.items():
            s /= pe(K.factors[f]) ** e
        return s
    if magnitude:
        s = pe(a.num, True)
        for f, e in a.den.items():
            s /= abs(pe(K.factors[f])) ** e
        return ev(a), s
    return ev(a)


UF_EVAL = {}


def diff(a, v):
    """formal derivative of RF a by base variable v (chain rule on atoms)"""
    cache = {}

    def dvar(i):
        if i in cache:
            return cache[i]
        w = K.vars[i]
        if w is v:
            r = rf(1)
        elif w.kind == "def":
            r = drf(w.val)
        elif w.kind == "alg":
            d = drf(w.val)
            r = rf(0) if d.is_zero() else rdiv(
                rmul(d, var(w)), rmul(rf(w.deg), w.val))
        elif w.kind == "log":
            d = drf(w.meta)
            r = rf(0) if d.is_zero() else rdiv(d, w.meta)
        elif w.kind == "exp":
            r = rmul(drf(w.meta), var(w))
        elif w.kind == "uf":
            for x in w.meta[1]:
                if isinstance(x, RF) and not drf(x).is_zero():
                    raise Unsupported("derivative of uninterpreted function")
            r = rf(0)
        else:
            r = rf(0)
        cache[i] = r
        return r

    def dpoly(p):
        out = rf(0)
        groups = {}
        for m, c in p.items():
            for i, e in exps(m):
                d = dvar(i)
                if d.is_zero():
                    continue
                g = groups.setdefault(i, {})
                mm = m - mono(i, 1)
                g[mm] = g.get(mm, 0) + c * e
        for i, g in groups.items():
            part = reduce_alg(dict(g)) if K.alg else RF(g, None)
            out = radd(out, rmul(part, dvar(i)))
        return out

    def drf(x):
        d = dpoly(x.num)
        for f, e in x.den.items():
            d = radd(d, RF(x.num, None, x.av) if False else rneg(
                rdiv(rmul(rmul(rf(e), RF(x.num, None, x.av)),
                          dpoly(K.factors[f])), facpow(f, 1))))
        for f, e in x.den.items():
            d = rdiv(d, facpow(f, e))
        return d
    return drf(a)


def subst(a, v, val):
    """RF a with the base variable v replaced by the RF val"""
    cache = {}

    def svar(i):
        if i in cache:
            return cache[i]
        w = K.vars[i]
        if w is v:
            r = val
        elif w.kind in ("def", "alg", "log", "exp", "uf") and \
                v.idx in all_vars(var(w)):
            if w.kind == "def":
                r = srf(w.val)
            elif w.kind == "alg":
                x = srf(w.val)
                r = rsqrt(x) if w.deg == 2 else rroot(x, w.deg)
            elif w.kind == "log":
                r = rlog(srf(w.meta))
            elif w.kind == "exp":
                r = rexp(srf(w.meta))
            else:
                raise Unsupported("substitution into uninterpreted function")
        else:
            r = var(w)
        cache[i] = r
        return r

    def spoly(p):
        out = rf(0)
        for m, c in p.items():
            t = rf(c)
            for i, e in exps(m):
                t = rmul(t, rpow(svar(i), e))
            out = radd(out, t)
        return out

    def srf(x):
        n = spoly(x.num)
        for f, e in x.den.items():
            n = rdiv(n, rpow(spoly(K.factors[f]), e))
        return n
    return srf(a)


def show(a, limit=12):
    def pm(m):
        return "*".join(K.vars[i].name + ("^%d" % e if e != 1 else "")
                        for i, e in exps(m))

    def pp(p):
        if not p:
            return "0"
        items = list(p.items())
        s = " + ".join((("%s*%s" % (c, pm(m))) if m else str(c))
                       for m, c in items[:limit])
        if len(items) > limit:
            s += " + ...(%d terms)" % len(items)
        return s
    s = pp(a.num)
    if a.den:
        s = "(%s)/%s" % (s, "*".join("(%s)^%d" % (pp(K.factors[f]), e)
                                     for f, e in a.den.items()))
    return s


def all_vars(a, acc=None):
    """indices of all variables a depends on, through atoms"""
    acc = set() if acc is None else acc

    def visit(p):
        for m in p:
            for i, _ in exps(m):
                if i not in acc:
                    acc.add(i)
                    v = K.vars[i]
                    if v.kind in ("alg", "def"):
                        all_vars(v.val, acc)
                    elif v.kind in ("log", "exp"):
                        all_vars(v.meta, acc)
                    elif v.kind == "uf":
                        for x in v.meta[1]:
                            if isinstance(x, RF):
                                all_vars(x, acc)
    visit(a.num)
    for f in a.den:
        visit(K.factors[f])
    return acc
