"""Rotations as elements of the free algebra over unit quaternions and vectors.  The operations of the
rotation library (product, rotate, exp, log) enter the proofs as uninterpreted terms; this module reads
such terms back as sums of words of letters and decides equations by the laws assumed of the library:
associativity, distributivity, conj(ab) = conj(b)conj(a), conj(v) = -v for vectors, q conj(q) = 1 for unit
letters, rotate(q, v) = q v conj(q), exp(0) = 1, conj(exp(v)) = exp(-v), exp(log(q)) = q up to sign and
d/dt exp(c(t) v) = exp(c(t) v) c'(t) v / 2; exp(c v) v = v exp(c v)."""
from sx import *
from poly import Conv, Poly, TooBig
from fractions import Fraction

_R = z3.RealSort()
UF = {nm: [z3.Function('%s%d' % (nm, i), *([_R] * (n + 1))) for i in range(k)] for nm, n, k in (('MUL', 8, 4), ('ROT', 7, 3), ('IROT', 7, 3), ('EXP', 3, 4), ('LOG', 4, 3))}
WHICH = {f.name(): (nm, i) for nm, fs in UF.items() for i, f in enumerate(fs)}
def app(nm, *args):
    a = [rv(x) for x in args]; return [f(*a) for f in UF[nm]]
class NoForm(Exception): pass

class Letter:
    """kind 'q': unit quaternion, 'v': vector.  tag: ('base', family, index term or None) | ('exp', element) | ('log', element)"""
    __slots__ = ('kind', 'tag')
    def __init__(s, kind, tag): s.kind = kind; s.tag = tag

class Quat:
    """fams: array or constant (ast id) -> (family name, component, 'q' or 'v')"""
    def __init__(self, vm, fams, env=()):
        self.vm = vm; self.fams = fams; self.env = list(env); self.cache = {}; self.keep = []
    def sub(self, t):
        t = z3.simplify(rv(t))
        for a, b in self.env: t = z3.simplify(z3.substitute(t, (a, b)))
        return self.undiv(t)
    def undiv(self, t):
        """x / y as x (1 / y) where x speaks of rotations"""
        if not z3.is_app(t) or t.sort() != _R: return t
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.children()[1]) and self.rotational(t.children()[0]): return self.undiv(t.children()[0]) * (1 / t.children()[1])
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): return t.decl()(*[self.undiv(c) for c in t.children()])
        return t
    def rotational(self, t):
        if self.which(t) is not None: return True
        return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV) and any(self.rotational(c) for c in t.children())
    # ---- scalars
    def zero(self, t):
        t = z3.simplify(t)
        if z3.is_rational_value(t): return t.numerator_as_long() == 0
        vm = self.vm; old = vm.hint; vm.hint = (t, z3.RealVal(0), (), ())
        try: return vm.poly_hint()
        finally: vm.hint = old
    # ---- atoms
    def which(self, e):
        """-> (family key, component, kind, maker of the letter element) of a component atom"""
        if z3.is_app(e):
            w = WHICH.get(e.decl().name())
            if w and len(e.children()) in (3, 4, 7, 8): return (w[0],) + tuple(c.get_id() for c in e.children()), w[1], 'q' if w[0] in ('MUL', 'EXP') else 'v', e
            if z3.is_select(e):
                f = self.fams.get(e.children()[0].get_id())
                if f: return ('base', f[0], e.children()[1].get_id()), f[1], f[2], e
            f = self.fams.get(e.get_id())
            if f: return ('base', f[0], None), f[1], f[2], e
        return None
    def expand(self, key, kind, e):
        if key in self.cache: return self.cache[key]
        self.keep.append(e); ch = e.children()
        if key[0] == 'MUL': r = self.mul(self.elem(ch[:4]), self.elem(ch[4:]))
        elif key[0] == 'ROT': q = self.elem(ch[:4]); r = self.mul(self.mul(q, self.elem(ch[4:])), self.conj(q))
        elif key[0] == 'IROT': q = self.elem(ch[:4]); r = self.mul(self.mul(self.conj(q), self.elem(ch[4:])), q)
        elif key[0] == 'EXP': r = self.exp(self.elem(ch))
        elif key[0] == 'LOG': r = [(z3.RealVal(1), ((Letter('v', ('log', self.elem(ch))), False),))]
        else: r = [(z3.RealVal(1), ((Letter(kind, key + (e,)), False),))]
        self.cache[key] = r; return r
    def exp(self, el):
        if not el: return [(z3.RealVal(1), ())]
        if len(el) == 1 and len(el[0][1]) == 1 and el[0][1][0][0].tag[0] == 'log':
            c, ((l, _),) = el[0]
            x = l.tag[1]
            if len(x) == 1 and self.zero(x[0][0] - 1) and all(a.kind == 'q' for a, _ in x[0][1]):
                if self.zero(c - 1): self.signed = True; return x
                if self.zero(c + 1): self.signed = True; return self.conj(x)
        return [(z3.RealVal(1), ((Letter('q', ('exp', el)), False),))]
    signed = False
    # ---- tuples of terms -> element
    def elem(self, terms):
        terms = [self.sub(t) for t in terms]; k = len(terms); cv = Conv(); fam = {}; const = [Poly() for _ in terms]
        try: ps = [cv.poly(t) for t in terms]
        except TooBig: raise NoForm('large term')
        for i, p in enumerate(ps):
            for m, c in p.d.items():
                hit = [(a, ex, self.which(cv.terms[a])) for a, ex in m]; hit = [h for h in hit if h[2] is not None]
                if not hit: const[i] = const[i] + Poly({m: c}); continue
                if len(hit) != 1 or hit[0][1] != 1: raise NoForm('not linear in rotation components')
                a, _, (key, comp, kind, e) = hit[0]; rest = Poly({tuple(x for x in m if x[0] != a): c})
                f = fam.setdefault(key, [kind, e, {}]); f[2][(i, comp)] = f[2].get((i, comp), Poly()) + rest
        if any(x.d for x in const[1 if k == 4 else 0:]): raise NoForm('constant vector')
        def term(p):
            s = z3.RealVal(0)
            for m, c in p.d.items():
                t = z3.RealVal(c)
                for a, ex in m:
                    for _ in range(ex): t = t * cv.terms[a]
                s = s + t
            return z3.simplify(s)
        out = []
        if k == 4 and const[0].d: out.append((term(const[0]), ()))
        for key, (kind, e, d) in fam.items():
            d = {x: p for x, p in d.items() if p.d}
            if not d: continue
            off = 1 if k == 4 else 0
            n = 4 if kind == 'q' else 3; shift = 0 if (k == 4) == (n == 4) else (1 if k == 4 else -1)   # tuple index = component + shift
            if any(i - c != shift for i, c in d): raise NoForm('mixed components')
            im = [d.get((i, i - shift), Poly()).d for i in range(k - 3, k)]
            if not (im[0] == im[1] == im[2]): raise NoForm('components differ')
            b = term(Poly(im[0])); a = term(d.get((0, 0), Poly())) if k == 4 and n == 4 else None
            x = self.expand(key, kind, e)
            if n == 3: out += self.scale(b, x)
            elif k == 4: out += self.scale((a + b) / 2, x) + self.scale((a - b) / 2, self.conj(x))
            else: out += self.scale(b / 2, x) + self.scale(-b / 2, self.conj(x))
        return self.norm(out)
    # ---- algebra
    def scale(self, c, x): return [(z3.simplify(c * a), w) for a, w in x]
    def conj(self, x): return self.norm([self.cword(a, w) for a, w in x])
    def cword(self, a, w):
        out = []
        for l, cj in reversed(w):
            if l.kind == 'v': a = -a; out.append((l, False))
            elif l.tag[0] == 'exp': out.append((Letter('q', ('exp', self.scale(z3.RealVal(-1), l.tag[1]))), False))
            else: out.append((l, not cj))
        return z3.simplify(a), tuple(out)
    def mul(self, x, y): return self.norm([(z3.simplify(a * b), u + w) for a, u in x for b, w in y])
    def same(self, l, m):
        if l is m: return True
        if l.kind != m.kind or l.tag[0] != m.tag[0]: return False
        if l.tag[0] == 'base': return l.tag[:3] == m.tag[:3]
        return self.equal(l.tag[1], m.tag[1])
    def sameword(self, u, w): return len(u) == len(w) and all(c == d and self.same(l, m) for (l, c), (m, d) in zip(u, w))
    def norm(self, x):
        out = []
        for a, w in x:
            st = []
            for l, cj in self.commute(w):
                if st and l.kind == 'q' and st[-1][0].kind == 'q':
                    m, dj = st[-1]
                    if l.tag[0] == 'exp' and m.tag[0] == 'exp' and not self.norm(l.tag[1] + m.tag[1]): st.pop(); continue
                    if l.tag[0] == 'base' and cj != dj and self.same(l, m): st.pop(); continue
                st.append((l, cj))
            w = tuple(st)
            for i, (b, u) in enumerate(out):
                if self.sameword(u, w): out[i] = (z3.simplify(a + b), u); break
            else: out.append((a, w))
        return [(a, w) for a, w in out if not self.zero(a)]
    def axis(self, l, m):
        """exp letter l and vector letter m along the same line"""
        return l.tag[0] == 'exp' and m.kind == 'v' and len(l.tag[1]) == 1 and len(l.tag[1][0][1]) == 1 and self.same(l.tag[1][0][1][0][0], m)
    def commute(self, w):
        """vectors to the right of the exponentials they commute with"""
        w = list(w); go = True
        while go:
            go = False
            for i in range(len(w) - 1):
                if w[i][0].kind == 'v' and w[i + 1][0].kind == 'q' and self.axis(w[i + 1][0], w[i][0]): w[i], w[i + 1] = w[i + 1], w[i]; go = True
        return w
    def equal(self, x, y): return not self.norm(list(x) + self.scale(z3.RealVal(-1), y))
    # ---- time derivative; t: the time constant
    def dscalar(self, c, t):
        cv = Conv(); p = cv.poly(z3.simplify(c)); tot = z3.RealVal(0)
        def has(e): return e.eq(t) or any(has(x) for x in e.children())
        for m, k in p.d.items():
            for a, ex in m:
                at = cv.terms[a]
                if at.eq(t): d = z3.RealVal(1)
                elif not has(at): continue
                elif z3.is_app(at) and at.decl().kind() == z3.Z3_OP_DIV and not has(at.children()[1]): d = self.dscalar(at.children()[0], t) / at.children()[1]
                else: raise NoForm('derivative of a coefficient')
                f = z3.RealVal(k * ex)
                for b, ey in m:
                    for _ in range(ey - (1 if b == a else 0)): f = f * cv.terms[b]
                tot = tot + f * d
        return z3.simplify(tot)
    def fixed(self, w, t):
        def has(e): return e.eq(t) or any(has(x) for x in e.children())
        for l, _ in w:
            if l.tag[0] == 'base':
                if has(l.tag[3]): return False
            elif any(has(c) or not self.fixed(u, t) for c, u in l.tag[1]): return False
        return True
    def diff(self, x, t):
        out = []
        for a, w in x:
            da = self.dscalar(a, t)
            if not self.zero(da): out.append((da, w))
            for i, (l, cj) in enumerate(w):
                if self.fixed(((l, cj),), t): continue
                if l.tag[0] != 'exp' or len(l.tag[1]) != 1: raise NoForm('derivative of a rotation')
                c, u = l.tag[1][0]
                if not self.fixed(u, t): raise NoForm('derivative of a rotation axis')
                out.append((z3.simplify(a * self.dscalar(c, t) / 2), w[:i + 1] + u + w[i + 1:]))
        return self.norm(out)
    def show(self, x):
        def let(l, cj):
            s = ('%s[%s]' % (l.tag[1], l.tag[3]) if l.tag[0] == 'base' else '%s{%s}' % (l.tag[0], self.show(l.tag[1])))
            return s + ("'" if cj else '')
        return ' + '.join('(%s) %s' % (a, ' '.join(let(*q) for q in w)) for a, w in x)[:600] or '0'
