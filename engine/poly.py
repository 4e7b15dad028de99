"""Exact multivariate polynomial arithmetic over z3 terms (used to discharge
polynomial identities that follow linearly from polynomial hypotheses)."""
from fractions import Fraction
import z3

class TooBig(Exception): pass

def frac(v):
    return Fraction(v.numerator_as_long(), v.denominator_as_long())

class Poly:
    """dict: monomial (tuple of (atom, exp) sorted) -> Fraction"""
    LIMIT = 60000
    def __init__(self, d=None): self.d = d or {}
    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c else {})
    @staticmethod
    def atom(a): return Poly({((a, 1),): Fraction(1)})
    def __add__(s, o):
        r = dict(s.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return Poly(r)
    def scale(s, k): return Poly({m: c * k for m, c in s.d.items()} if k else {})
    def __neg__(s): return s.scale(-1)
    def __sub__(s, o): return s + (-o)
    def __mul__(s, o):
        if len(s.d) * len(o.d) > Poly.LIMIT: raise TooBig()
        r = {}
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
        return Poly(r)
    def is_const(s): return all(m == () for m in s.d)
    def cval(s): return s.d.get((), Fraction(0))

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))

class Conv:
    """z3 term -> Poly. Non-polynomial subterms become atoms; x/y becomes an atom q
    together with the side equation q*y = x (recorded in self.side, valid when y != 0)."""
    def __init__(self):
        self.atoms = {}     # ast id -> atom number
        self.terms = []     # atom number -> z3 term
        self.side = []      # (q_term, num, den)
        self.cache = {}
        self.keep = []
    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = len(self.terms); self.terms.append(e)
        return Poly.atom(self.atoms[i])
    def poly(self, e):
        i = e.get_id()
        if i in self.cache: return self.cache[i]
        r = self._poly(e)
        self.cache[i] = r; self.keep.append(e)
        return r
    def _poly(self, e):
        if z3.is_rational_value(e): return Poly.const(frac(e))
        if z3.is_int_value(e): return Poly.const(e.as_long())
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_ADD:
                r = Poly()
                for c in ch: r = r + self.poly(c)
                return r
            if k == z3.Z3_OP_SUB:
                r = self.poly(ch[0])
                for c in ch[1:]: r = r - self.poly(c)
                return r
            if k == z3.Z3_OP_UMINUS: return -self.poly(ch[0])
            if k == z3.Z3_OP_MUL:
                r = Poly.const(1)
                for c in ch: r = r * self.poly(c)
                return r
            if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
                n = int(frac(ch[1])) if z3.is_rational_value(ch[1]) else ch[1].as_long()
                if 0 <= n <= 12:
                    r = Poly.const(1); b = self.poly(ch[0])
                    for _ in range(n): r = r * b
                    return r
            if k == z3.Z3_OP_DIV:
                den = self.poly(ch[1])
                if den.is_const() and den.cval(): return self.poly(ch[0]).scale(1 / den.cval())
                a = self.atom(e)
                self.side.append((a, self.poly(ch[0]), den))
                return a
            if k == z3.Z3_OP_TO_REAL:
                inner = ch[0]
                if z3.is_int_value(inner): return Poly.const(inner.as_long())
        return self.atom(e)

def in_span(goal, hyps):
    """True if goal is a rational-linear combination of hyps (as vectors over monomials)."""
    rows = []
    def reduce(p):
        p = dict(p)
        for piv, row in rows:
            c = p.get(piv)
            if c:
                for m, v in row.items():
                    w = p.get(m, 0) - c * v
                    if w: p[m] = w
                    else: p.pop(m, None)
        return p
    for h in hyps:
        r = reduce(h.d)
        if not r: continue
        piv = max(r.keys(), key=lambda m: (len(m), m))
        c = r[piv]
        r = {m: v / c for m, v in r.items()}
        # back-substitute to keep rows reduced
        for i, (pv, row) in enumerate(rows):
            cc = row.get(piv)
            if cc:
                nr = dict(row)
                for m, v in r.items():
                    w = nr.get(m, 0) - cc * v
                    if w: nr[m] = w
                    else: nr.pop(m, None)
                rows[i] = (pv, nr)
        rows.append((piv, r))
    return not reduce(goal.d)
