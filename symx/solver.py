"""Translation of the algebra to z3 and the queries put to it."""
import time
from fractions import Fraction

import z3

from . import poly as P


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.max_terms = 0


class Solver:
    def __init__(self, seed=0):
        self.st = Stats()
        self.seed = seed
        self.zv = {}

    def var(self, i):
        v = self.zv.get(i)
        if v is None:
            v = z3.Real("v%d_%s" % (i, P.K.vars[i].name))
            self.zv[i] = v
        return v

    def const(self, c):
        c = Fraction(c)
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator))

    def poly(self, p, used):
        """p may have negative exponents: caller clears them first"""
        terms = []
        for m, c in p.items():
            fs = []
            for i, e in P.exps(m):
                used.add(i)
                x = self.var(i)
                fs.extend([x] * e)
            if not fs:
                terms.append(self.const(c))
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else self.const(c) * t)
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def numden(self, r, used):
        """r = num/den as z3 terms, all exponents nonnegative"""
        lo, _ = P.box(r.num) if r.num else ({}, {})
        mult = 0
        den = None
        for i, e in lo.items():
            if e < 0:
                mult += P.mono(i, -e)
                used.add(i)
                for _ in range(-e):
                    den = self.var(i) if den is None else den * self.var(i)
        num = self.poly({m + mult: c for m, c in r.num.items()}, used)
        for f, e in r.den.items():
            d = self.poly(P.K.factors[f], used)
            for _ in range(e):
                den = d if den is None else den * d
        return num, den

    def rel(self, r, op, used):
        num, den = self.numden(r, used)
        if op == "==":
            return num == 0
        if op == "!=":
            return num != 0
        if den is not None:
            num = num * den
        return num < 0 if op == "<" else num <= 0

    def formula(self, f, used):
        t = f[0]
        if t == "cmp":
            return self.rel(f[2], f[1], used)
        if t == "and":
            return z3.And([self.formula(x, used) for x in f[1]])
        if t == "or":
            return z3.Or([self.formula(x, used) for x in f[1]])
        return z3.Not(self.formula(f[1], used))

    def axioms(self, used):
        """definitions of the atoms in `used` (closes `used`)"""
        out = []
        done = set()
        while True:
            todo = [i for i in used if i not in done]
            if not todo:
                return out
            for i in todo:
                done.add(i)
                v = P.K.vars[i]
                x = self.var(i)
                if v.positive:
                    out.append(x > 0)
                elif v.nonneg:
                    out.append(x >= 0)
                if v.kind == "alg":
                    n, d = self.numden(v.val, used)
                    t = x
                    for _ in range(v.deg - 1):
                        t = t * x
                    if d is not None:
                        t = t * d
                        out.append(d != 0)
                    out.append(t == n)
                elif v.kind == "def":
                    n, d = self.numden(v.val, used)
                    out.append((x if d is None else x * d) == n)
                    if v.meta:
                        out.append(x != 0)
                    if d is not None:
                        out.append(d != 0)

    def size(self, fs):
        """number of polynomial terms of a list of formulas"""
        n = 0
        for f in fs:
            if f[0] == "cmp":
                n += self.nterms(f[2])
            elif f[0] == "not":
                n += self.size([f[1]])
            else:
                n += self.size(f[1])
        return n

    def nterms(self, *rs):
        n = 0
        for r in rs:
            n += len(r.num)
            for f in r.den:
                n += len(P.K.factors[f])
        return n

    def check(self, formulas, used, timeout=5.0, want_model=False,
              extra=()):
        s = z3.SolverFor("QF_NRA") if not extra else z3.Solver()
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", self.seed)
        s.add(*formulas)
        s.add(*self.axioms(used))
        s.add(*extra)
        t = time.time()
        r = s.check()
        self.st.time += time.time() - t
        self.st.queries += 1
        if r == z3.unsat:
            self.st.unsat += 1
            return "unsat", None
        if r == z3.sat:
            self.st.sat += 1
            return "sat", (s.model() if want_model else None)
        self.st.unknown += 1
        return "unknown", None

    def model_value(self, m, i):
        x = m.eval(self.var(i), model_completion=True)
        try:
            if z3.is_algebraic_value(x):
                x = x.approx(30)
            return x.numerator_as_long() / x.denominator_as_long()
        except Exception:
            return None
