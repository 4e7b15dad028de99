"""Deductive layer: contracts on the real functions, vectors and matrices of symbolic size, loop
invariants inferred and then proved inductive, ghost prefix sums.  Quantified facts are kept as
python closures and instantiated at the index terms that occur in the ground formulas, so every
solver query is quantifier free (an 'unsat' answer is a proof; a 'sat' answer is only as good as
the instances, hence reported as undischarged, not as refuted)."""
import itertools
from sx import *
from models import MVM, EView1
from strmodel import StrVM

AR = z3.ArraySort(I, R)
SUM = z3.Function('S', AR, I, R)
MAXN = 1 << 24
MAXTRIPS = 1 << 40

class Undischarged(Exception): pass

def sel(a, i): return z3.simplify(z3.Select(a, iv(i)))
def consts_of(t, cache={}):
    """ids of the uninterpreted constants in t"""
    h = t.get_id()
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st.extend(x.children())
    return out
def lin(t):
    """linear form of an Int term: ({atom_id: (atom, coef)}, const)"""
    d = {}; c = [0]
    def go(x, m):
        if z3.is_int_value(x): c[0] += m * x.as_long(); return
        if z3.is_add(x):
            for y in x.children(): go(y, m)
            return
        if z3.is_sub(x):
            ch = x.children(); go(ch[0], m)
            for y in ch[1:]: go(y, -m)
            return
        if x.decl().kind() == z3.Z3_OP_UMINUS: go(x.children()[0], -m); return
        if z3.is_mul(x):
            ch = x.children(); k = 1; rest = []
            for y in ch:
                if z3.is_int_value(y): k *= y.as_long()
                else: rest.append(y)
            if len(rest) == 1: go(rest[0], m * k); return
            if not rest: c[0] += m * k; return
        a, q = d.get(x.get_id(), (x, 0)); d[x.get_id()] = (x, q + m)
    go(z3.simplify(iv(t)), 1)
    return {k: v for k, v in d.items() if v[1] != 0}, c[0]
def const_diff(a, b):
    """a-b as python int if constant else None"""
    d, c = lin(iv(a) - iv(b))
    return c if not d else None
def quot(t, q):
    """t / q when syntactically divisible, else None"""
    d, c = lin(t)
    if c % q or any(v[1] % q for v in d.values()): return None
    r = z3.IntVal(c // q)
    for a, k in d.values(): r = r + (k // q) * a
    return z3.simplify(r)
def coef_of(t, j):
    """t = a*j + rest, returns (a, rest) or None; j an Int constant"""
    d, c = lin(t)
    a = 0; rest = z3.IntVal(c); jn = j.get_id()
    for k, (x, q) in d.items():
        if k == jn: a = q
        else:
            if j.decl().name() in consts_of(x): return None
            rest = rest + q * x
    return a, z3.simplify(rest)

MSORT = z3.ArraySort(I, AR)
def has_mat(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.sort() == MSORT: return True
        st.extend(x.children())
    return False
class QF:
    """for all j in [lo,hi): fn(j).  trig: list of (array term, inv: index -> j or None)"""
    __slots__ = ('lo', 'hi', 'fn', 'trig', 'always', 'done', 'name', 'info')
    def __init__(s, lo, hi, fn, trig=(), always=(), name='', info=None):
        s.info = info
        s.lo = lo; s.hi = hi; s.fn = fn; s.trig = list(trig); s.always = list(always); s.done = set(); s.name = name
    def inst(s, j):
        g = []
        if s.lo is not None: g.append(j >= s.lo)
        if s.hi is not None: g.append(j < s.hi)
        f = s.fn(j)
        return z3.Implies(z3.And(g), f) if g else f
def direct(a): return (a, lambda i: i)

def auto_trig(f, j):
    """triggers found in f(j): selects / sums whose index is +-j + rest"""
    out = []; seen = set()
    st = [f]; vis = set()
    while st:
        x = st.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if (z3.is_select(x) or (z3.is_app(x) and x.decl().name() == 'S')) and x.children()[1].sort() == I:
            a, i = x.children()
            while z3.is_store(a): a = a.children()[0]
            if j.decl().name() not in consts_of(a):
                r = coef_of(i, j)
                if r and r[0] in (1, -1):
                    key = (a.get_id(), r[0], r[1].get_id())
                    if key not in seen:
                        seen.add(key)
                        out.append((a, (lambda q, rest: lambda idx: z3.simplify((idx - rest) * q))(r[0], r[1])))
                elif r and r[0] != 0:
                    out.append((a, (lambda q, rest: lambda idx: quot(idx - rest, q))(r[0], r[1])))
        st.extend(x.children())
    return out

MULF = z3.Function('times', R, R, R); DIVF = z3.Function('over', R, R, R)
class DVM(StrVM):
    maxdepth = 2; deep = False; rekey = False; rounds = 10
    def __init__(self, prog, cfg=None):
        self.loopcache = {}
        self.contracts = {}
        self.proved_fns = {}
        self.quiet = 0
        self.ctx = ()
        super().__init__(prog, cfg)
    # ------------------------------------------------------------ path state
    def reset_path(self, prefix):
        super().reset_path(prefix)
        self.solver.set('arith.nl', False)    # products are opaque here; obligations that need them get a second solver
        self.frames_of = {}       # array id -> (array, region test, array before the loop)
        self.contents_of = {}     # array id -> [(array, c, step, value, count)]: array[c+step*j] = value(j) for 0<=j<count
        self.solves = []          # linear systems solved on this path: (A, b, solution array)
        self.hint = None
        self.mfacts = []
        Root._reg = []
        self.q = []
        self.idepth = {}; self.sdepth = {}
        self.seen = {}            # array id -> {index id: (array, index)}
        self.scanned = set()
        self.sums = {}            # array id -> {idx id: (array, idx)}
        self.nonneg = []          # (array, n)
        self.instn = 0
        self.pcmark = []          # parallel to pc: True for instances / ghost facts
        self.quiet = 0; self.ctx = ()
        self.loopn = 0
        self.weak = False         # an incompletely characterised loop lies on this path
        self.keep = []
    def add(self, f, ghost=False, depth=0):
        f = z3.simplify(f) if isinstance(f, z3.ExprRef) else bv(f)
        if z3.is_true(f): return
        self.pc.append(f); self.pcmark.append(ghost); self.sadd(f)
        if z3.is_false(f): raise PathEnd()
        self.scan(f, depth)
    def sadd(self, f):
        """facts about whole matrices are kept out of the way unless a question mentions a matrix"""
        if has_mat(f): self.mfacts.append(f)
        else: self.solver.add(self.opq(f))
    opaque = False
    def opq(self, f):
        """products and quotients as uninterpreted terms (equations over them are the polynomial checker's)"""
        if not self.opaque: return f
        if not hasattr(self, '_opq'): self._opq = {}
        c = self._opq
        def go(x):
            h = x.get_id()
            if h in c: return c[h][1]
            ch = x.children()
            if not ch: r = x
            else:
                y = [go(z) for z in ch]; k = x.decl().kind()
                if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]): r = DIVF(*y)
                elif k == z3.Z3_OP_MUL and x.sort() == R and sum(not z3.is_rational_value(z) for z in ch) > 1:
                    y.sort(key=lambda z: z.get_id()); r = y[0]
                    for z in y[1:]: r = MULF(r, z)
                elif all(a is b or a.eq(b) for a, b in zip(y, ch)): r = x
                else: r = x.decl()(*y)
            c[h] = (x, r); return r
        return go(f)
    def add_eq(self, f): self.add(f)
    def assume_after(self, goal):
        g = z3.simplify(goal)
        if z3.is_true(g): return
        self.pc.append(g); self.pcmark.append(False); self.sadd(g)
        if z3.is_false(g): raise PathEnd()
        self.scan(g, 0)
    def check(self, *extra, timeout=None):
        for e in extra: self.scan(e, 0)
        if self.mfacts and any(has_mat(e) for e in extra): extra = tuple(extra) + tuple(self.mfacts)
        return super().check(*[self.opq(e) for e in extra], timeout=timeout)
    def addq(self, q):
        """assume a quantified fact"""
        self.q.append(q)
        for j in q.always: self.inst(q, j, 1)
        for a, inv in q.trig:
            for (arr, i) in list(self.seen.get(a.get_id(), {}).values()):
                j = inv(i)
                if j is not None: self.inst(q, j, 1)
    def inst(self, q, j, depth):
        j = z3.simplify(iv(j))
        key = (id(q), j.get_id())
        if key in self.scanned:
            if self.deep and depth < self.idepth.get(key, (0,))[0]:
                f = self.idepth[key][1]; self.idepth[key] = (depth, f); self.scan(f, depth)
            return
        self.scanned.add(key); self.keep.append(j); self.keep.append(q)
        if self.deep: self.idepth[key] = (depth, z3.simplify(q.inst(j)))
        self.instn += 1
        if self.instn > 6000: raise Unsupported('too many instances')
        self.add(q.inst(j), True, depth)
    def scan(self, f, depth):
        """register index terms, instantiate facts"""
        if depth > self.maxdepth: return
        self.keep.append(f)
        st = [f]; found = []
        while st:
            x = st.pop()
            key = ('t', x.get_id(), min(depth, self.maxdepth))
            if key in self.scanned or ('t', x.get_id(), 0) in self.scanned: continue
            self.scanned.add(key)
            if z3.is_app(x) and x.num_args() == 2:
                a, i = x.children()
                if z3.is_select(x) and (i.sort() == I or i.sort() == R): found.append(('s', a, i))
                elif x.decl().name() == 'S': found.append(('S', a, i))
            st.extend(x.children())
        for k, a, i in found:
            b = a
            while True:
                d = self.seen.setdefault(b.get_id(), {})
                if i.get_id() not in d or self.deep and self.sdepth.get((b.get_id(), i.get_id()), 0) > depth:
                    d[i.get_id()] = (b, i)
                    if self.deep: self.sdepth[(b.get_id(), i.get_id())] = depth
                    for q in list(self.q):
                        for ta, inv in q.trig:
                            if ta.get_id() == b.get_id():
                                j = inv(i)
                                if j is not None: self.inst(q, j, depth + 1)
                    self.on_seen(b, i, depth + 1)
                if z3.is_store(b): b = b.children()[0]
                elif z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE: break
                else: break
            if k == 'S': self.sum_lemmas(a, i, depth)
    def on_seen(self, b, i, depth): pass
    # ------------------------------------------------------------ prefix sums
    def sum_lemmas(self, a, e, depth):
        d = self.sums.setdefault(a.get_id(), {})
        if e.get_id() in d: return
        first = not d
        d[e.get_id()] = (a, e)
        S = SUM
        if first: self.add(S(a, z3.IntVal(0)) == 0, True, 3)
        e1 = z3.simplify(e + 1); e0 = z3.simplify(e - 1)
        if depth <= 1:
            self.add(z3.Implies(e >= 0, S(a, e1) == S(a, e) + z3.Select(a, e)), True, depth + 1)
            self.add(z3.Implies(e >= 1, S(a, e) == S(a, e0) + z3.Select(a, e0)), True, depth + 1)
        if z3.is_store(a):
            b, k, x = a.children()
            self.add(z3.Implies(z3.And(e <= k, 0 <= k), S(a, e) == S(b, e)), True, depth)
        for (na, n) in self.nonneg:
            if na.get_id() == a.get_id(): self.monotone(a, n)
        self.const_sum(a, e)
    def const_sum(self, a, e):
        if z3.is_const_array(a):
            v = a.children()[0]
            if z3.is_rational_value(v) and v.numerator_as_long() == 0: self.add(SUM(a, e) == 0, True, 3)
    def set_nonneg(self, a, n):
        """register for all i<n: a[i]>=0 (must be justified by the caller) -> prefix sums are monotone"""
        self.nonneg.append((a, n))
        self.addq(QF(z3.IntVal(0), n, lambda j: z3.Select(a, j) >= 0, [direct(a)], name='nonneg'))
        self.monotone(a, n)
    def monotone(self, a, n):
        es = list(self.sums.get(a.get_id(), {}).values())
        es = [e for _, e in es] + [z3.IntVal(0)]
        for x, y in itertools.combinations(es, 2):
            key = ('mono', a.get_id(), x.get_id(), y.get_id())
            if key in self.scanned: continue
            self.scanned.add(key)
            for p, q in ((x, y), (y, x)):
                self.add(z3.Implies(z3.And(p >= 0, p <= q, q <= n), SUM(a, p) <= SUM(a, q)), True, 3)
    # ------------------------------------------------------------ obligations
    def oblige(self, goal, label, kind='post'):
        if self.quiet:
            self.assume_after(bv(goal)); return True
        ok = super().oblige(goal, label, kind)
        if not ok:
            o = self.obls[(self.tag, tuple(self.dec), self.obn)]
            if self.weak and not o.detail.startswith('weak'): o.detail = 'weak: ' + o.detail
        return ok
    def oblige_all(self, lo, hi, fn, label, kind='post', trig=None):
        """prove: for all j in [lo,hi): fn(j)"""
        j = self.fresh('j', I)
        g = [x for x in ((j >= lo) if lo is not None else None, (j < hi) if hi is not None else None) if x is not None]
        goal = z3.Implies(z3.And(g), fn(j)) if g else fn(j)
        self.oblige(goal, label, kind)
    def prove(self, g):
        self.stats['solver_calls'] += 1
        t = time.time()
        try:
            self.scan(g, 0)
            if self.hint:
                return ('proved', 'poly-span', None, '') if self.poly_hint() else ('unknown', 'poly-span', None, 'not provable: not a polynomial consequence of the equations in force')
            hyp = self.prepare(g)
            if hyp is not None and self.poly_prove(hyp): return 'proved', 'poly-span', None, ''
            r = self.check(z3.Not(g), timeout=min(4000, self.cfg.solver_timeout))
            if r == z3.unsat: return 'proved', 'z3', None, ''
            if r == z3.sat and not self.nonlinear(g): return 'unknown', 'z3', None, 'not provable from the contracts and inferred invariants'
            s = z3.Solver(); s.set('timeout', self.cfg.solver_timeout)
            s.add(*self.pc); s.add(z3.Not(g))
            r = s.check()
            if r == z3.unsat: return 'proved', 'z3', None, ''
            return 'unknown', 'z3', None, 'not provable from the contracts and inferred invariants' if r == z3.sat else s.reason_unknown()
        finally: self.stats['solver_time'] += time.time() - t
    def nonlinear(self, g): return self.opaque and any(not self.opq(f).eq(f) for f in [g] + self.pc)
    def prepare(self, g): return g
    def quick(self, g, timeout=1500):
        g = z3.simplify(bv(g))
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        self.scan(g, 0)
        if z3.is_eq(g) and g.children()[0].sort() == R and self.poly_prove(g): return True
        return self.check(z3.Not(g), timeout=timeout) == z3.unsat
    def quick_all(self, q):
        """prove a quantified fact in the current state (skolemised)"""
        j = self.fresh('qj', I)
        g = []
        if q.lo is not None: g.append(j >= q.lo)
        if q.hi is not None: g.append(j < q.hi)
        if q.info and q.info[0] == 'content':     # the newest element apart: no reasoning about products needed
            last = z3.simplify(q.hi - 1); f = q.fn(last)
            if not self.quick(z3.Implies(last >= q.lo, f)): return False
            g.append(j != last)
        f = q.fn(j)
        return self.quick(z3.Implies(z3.And(g), f) if g else f)

    def fit(self, v, i, what='', signed_ub=False):
        """as the base, but a wrap-around is split off as a path of its own"""
        t = self.P.T(self.P.strip(i))
        if not t.get('int') or cint(v) is not None or (signed_ub and t['signed']): return super().fit(v, i, what, signed_ub)
        lo, hi = self.irange(t); v = z3.simplify(v); m = 1 << t['bits']
        rg = z3.And(v >= lo, v <= hi)
        if self.entails(rg): return v
        if self.quiet and self.check(rg) != z3.unsat: self.add(rg, True); return v   # only while looking for invariants
        if self.decide(rg): return v
        for w in (v + m, v - m):
            w = z3.simplify(w)
            if self.entails(z3.And(w >= lo, w <= hi)): return w
        return super().fit(v, i, what, signed_ub)
    # ------------------------------------------------------------ values of symbolic size
    def proto(self, et):
        """value of element type with placeholder leaves"""
        key = self.P.strip(et)
        if not hasattr(self, '_proto'): self._proto = {}
        if key not in self._proto:
            sv = (self.pc, self.pcmark, self.solver, self.names)
            self.pc = []; self.pcmark = []; self.solver = z3.Solver(); self.names = {}
            try: self._proto[key] = self.symbolic(et, 'proto')
            finally: self.pc, self.pcmark, self.solver, self.names = sv
        return self._proto[key]
    def flat(self, v, path=()):
        """[(path, z3 term)] of a value"""
        if isinstance(v, z3.ExprRef): return [(path, v)]
        out = []
        if isinstance(v, Rec):
            for k, x in v.f.items(): out += self.flat(x, path + (('f', k),))
        elif isinstance(v, (Arr, CVec)):
            for k, x in enumerate(v.e): out += self.flat(x, path + (('i', k),))
        elif isinstance(v, Pair):
            out += self.flat(v.a, path + (('a',),)) + self.flat(v.b, path + (('b',),))
        elif isinstance(v, Mat):
            for k, x in enumerate(v.e): out.append((path + (('m', k),), x))
        elif isinstance(v, SVec):
            out.append((path + (('n',),), v.n))
            for p, a in v.lv.items(): out.append((path + (('v', p),), a))
        elif isinstance(v, SMat):
            out += [(path + (('r',),), iv(v.r)), (path + (('c',),), iv(v.c))]
            out.append((path + (('e',),), z3.simplify(z3.Select(v.d, z3.IntVal(0)))) if cint(iv(v.c)) == 1 else (path + (('d',),), v.d))
        elif isinstance(v, VIter): out.append((path + (('it',),), iv(v.i)))
        elif isinstance(v, Ptr) and v.idx is not None: out.append((path + (('px',),), iv(v.idx)))
        return out
    def rebuild(self, v, sub, path=()):
        """v with the leaves listed in sub replaced"""
        if isinstance(v, z3.ExprRef): return sub.get(path, v)
        if isinstance(v, Rec): return Rec(v.t, {k: self.rebuild(x, sub, path + (('f', k),)) for k, x in v.f.items()})
        if isinstance(v, Arr): return Arr([self.rebuild(x, sub, path + (('i', k),)) for k, x in enumerate(v.e)])
        if isinstance(v, CVec): return CVec([self.rebuild(x, sub, path + (('i', k),)) for k, x in enumerate(v.e)], v.et)
        if isinstance(v, Pair): return Pair(self.rebuild(v.a, sub, path + (('a',),)), self.rebuild(v.b, sub, path + (('b',),)))
        if isinstance(v, Mat): return Mat(v.r, v.c, [sub.get(path + (('m', k),), x) for k, x in enumerate(v.e)])
        if isinstance(v, SVec):
            return SVec(sub.get(path + (('n',),), v.n), v.et, {p: sub.get(path + (('v', p),), a) for p, a in v.lv.items()})
        if isinstance(v, SMat):
            e = sub.get(path + (('e',),))
            return SMat(sub.get(path + (('r',),), v.r), sub.get(path + (('c',),), v.c), z3.K(I, e) if e is not None else sub.get(path + (('d',),), v.d))
        if isinstance(v, VIter): return VIter(v.lv, sub.get(path + (('it',),), v.i), v.rev)
        if isinstance(v, Ptr) and v.idx is not None: return Ptr(v.lv, sub.get(path + (('px',),), v.idx))
        return v
    def svec_fresh(self, et, name):
        n = self.fresh(name + '.n', I)
        lv = {}
        for p, x in self.flat(self.proto(et)): lv[p] = self.fresh(name + '.' + self.pname(p), z3.ArraySort(I, x.sort()))
        self.add(z3.And(n >= 0, n <= MAXN))
        return SVec(n, et, lv)
    def pname(self, p):
        def go(x):
            if not isinstance(x, tuple): return [str(x)]
            if x and not isinstance(x[0], tuple): return go(x[-1])
            return [z for y in x for z in go(y)]
        return '.'.join(go(tuple(p)))
    def svec_elem(self, v, i):
        i = iv(i)
        return self.rebuild(self.proto(v.et), {p: sel(a, i) for p, a in v.lv.items()})
    def find_any(self, a, b, x):
        """std::find: the first place in [a, b) with that value, else b"""
        v = a.lv.load()
        if a.rev or not isinstance(v, SVec) or len(v.lv) != 1: return super().find_any(a, b, x)
        (arr,) = v.lv.values(); lo, hi = iv(a.i), iv(b.i); p = self.fresh('found', I)
        self.oblige(z3.And(0 <= lo, lo <= hi, hi <= v.n), 'range of a search lies in the vector', 'safety')
        self.add(z3.And(lo <= p, p <= hi)); at = lambda i: self.same_value(self.svec_elem(v, i), x)
        self.addq(QF(lo, p, lambda i: z3.Not(at(i)), [direct(arr)], name='not found before'))
        if self.decide(p < hi): self.add(at(p))
        else: return b
        return VIter(a.lv, p)
    def svec_set(self, v, i, x):
        x = self.tosym(x, v.et)
        fx = dict(self.flat(x))
        lv = {}
        for p, a in v.lv.items():
            if p not in fx: raise Unsupported('element shape')
            y = fx[p]
            if z3.simplify(z3.Select(a, iv(i))).eq(z3.simplify(y)): lv[p] = a
            else: lv[p] = z3.Store(a, iv(i), y)
        return SVec(v.n, v.et, lv)
    def tosym(self, x, et):
        """bring x to the representation of the prototype of et"""
        pr = self.proto(et)
        return self.like(x, pr)
    def like(self, x, pr):
        if isinstance(pr, SVec) and isinstance(x, CVec): return self.svec_of(x)
        if isinstance(pr, Rec) and isinstance(x, Rec): return Rec(x.t, {k: self.like(y, pr.f[k]) if k in pr.f else y for k, y in x.f.items()})
        if isinstance(pr, Arr) and isinstance(x, Arr): return Arr([self.like(a, b) for a, b in zip(x.e, pr.e)])
        if isinstance(pr, Pair) and isinstance(x, Pair): return Pair(self.like(x.a, pr.a), self.like(x.b, pr.b))
        if isinstance(pr, Mat) and isinstance(x, Lazy): return self.force(x)
        if isinstance(pr, SMat) and isinstance(x, Lazy): x = self.force(x)
        if isinstance(pr, SMat) and isinstance(x, Mat) and x.c == 1:
            d = z3.K(I, z3.RealVal(0))
            for k, y in enumerate(x.e): d = z3.Store(d, z3.IntVal(k), rv(y))
            return SMat(z3.IntVal(x.r), z3.IntVal(1), z3.K(I, d))
        return x
    def svec_of(self, v):
        """CVec -> SVec"""
        lv = {}
        for p, x in self.flat(self.proto(v.et)): lv[p] = self.fresh('!vec.' + self.pname(p), z3.ArraySort(I, x.sort()))
        s = SVec(z3.IntVal(len(v.e)), v.et, lv)
        for k, x in enumerate(v.e): s = self.svec_set(s, z3.IntVal(k), x)
        return s
    def symbolic(self, i, name):
        i2 = self.P.strip(i); t = self.P.T(i2)
        if t['k'] == 'rec' and t.get('name') == 'std::vector': return self.svec_fresh(t['args'][0]['t'], name)
        if t['k'] == 'rec' and t.get('name') == 'Eigen::Matrix':
            r, c = self.eig_dims(i2)
            if r < 0 or c < 0: return self.smat_fresh(r, c, name)
        return super().symbolic(i, name)
    def undef(self, i, name='undef'):
        i2 = self.P.strip(i); t = self.P.T(i2)
        if t['k'] == 'rec' and t.get('name') == 'Eigen::Matrix':
            return MVM.symbolic(self, i, '!' + name)
        if t['k'] == 'rec':
            d = self.default_lib(i2)
            if d is not None: return d
        return super().undef(i, name)
    def smat_fresh(self, r, c, name):
        R_ = iv(r) if r >= 0 else self.fresh(name + '.rows', I)
        C_ = iv(c) if c >= 0 else self.fresh(name + '.cols', I)
        for x in (R_, C_):
            if cint(x) is None: self.add(z3.And(x >= 0, x <= MAXN))
        return SMat(R_, C_, self.fresh(name + '.d', z3.ArraySort(I, AR)))
    def elem(self, v, i):
        if isinstance(v, SVec): return self.svec_elem(v, i)
        if isinstance(v, SMat):
            if cint(iv(v.c)) == 1: return self.mat_get(v, i, 0)
            return self.mat_get(v, 0, i)
        return super().elem(v, i)
    def setelem(self, v, i, x):
        if isinstance(v, SVec): return self.svec_set(v, i, x)
        if isinstance(v, SMat): return self.mat_set(v, i, 0, x) if cint(iv(v.c)) == 1 else self.mat_set(v, 0, i, x)
        return super().setelem(v, i, x)
    def length(self, v):
        if isinstance(v, SVec): return v.n
        return super().length(v)
    def mat_get(self, m, i, j):
        if isinstance(m, SMat):
            if z3.simplify(iv(m.c)).eq(z3.IntVal(1)): return z3.simplify(z3.Select(z3.Select(m.d, z3.IntVal(0)), iv(i)))   # vectors: one row of data
            return z3.simplify(z3.Select(self.row(m.d, iv(i)), iv(j)))
        return super().mat_get(m, i, j)
    def row(self, d, i):
        """d[i], with writes to other rows (and loops that do not touch row i) looked through"""
        i = z3.simplify(i)
        while True:
            if z3.is_store(d):
                a, k, v = d.children()
                df = const_diff(i, k)
                if df == 0: return v
                if df is None and not self.entails(i != k):
                    if self.entails(i == k): return v
                    break
                d = a; continue
            hit = False
            for arr, c, st, vj, cnt in self.contents_of.get(d.get_id(), ()):
                j = quot(i - c, st)
                if j is not None and self.entails(z3.And(j >= 0, j < cnt)): return z3.simplify(vj(j))
            f = self.frames_of.get(d.get_id())
            if f is not None and self.entails(f[1](i)): d = f[2]; continue
            break
        return z3.simplify(z3.Select(d, i))
    def resolve(self, t):
        """t with every array read looked up through writes and loops"""
        cache = {}
        def go(x):
            h = x.get_id()
            if h in cache: return cache[h][1]
            if z3.is_select(x) and x.children()[1].sort() == I:
                y = self.row(x.children()[0], go(x.children()[1]))
                r = go(y) if not y.eq(x) else y
            elif x.num_args() == 0: r = x
            else: r = x.decl()(*[go(y) for y in x.children()])
            cache[h] = (x, r); return r
        return z3.simplify(go(t))
    # ------------------------------------------------------------ linear systems of symbolic size
    on_solve = None
    def force(self, lz):
        A, b = lz.A, lz.b
        if not isinstance(A, SMat): return super().force(lz)
        if not isinstance(b, SMat): raise Unsupported('right-hand side of a linear system')
        if self.quiet: raise Unsupported('linear system inside a loop')
        X = self.fresh('!sol', AR)
        self.oblige(iv(A.r) == iv(b.r), 'matrix and right-hand side have the same number of rows', 'safety')
        self.solves.append((A, b, X))
        self.stats['assumed'].add('Eigen solve() of a solvable system returns a solution of it; of any other system, some vector')
        if self.on_solve: self.on_solve(A, b, X)
        return SMat(A.c, z3.IntVal(1), z3.K(I, X))
    def row_sources(self, d):
        """the rows of a matrix: ('one', index, row) and ('many', c, step, row(j), count); rest zero"""
        out = []; region = []
        while True:
            if z3.is_store(d):
                a, k, v = d.children(); d = a
                if any(x[0] == 'one' and const_diff(x[1], k) == 0 for x in out): continue      # overwritten later
                if any(x[0] == 'one' and const_diff(x[1], k) is None and not self.entails(x[1] != k) for x in out) or not all(self.entails(g(k)) for g in region):
                    raise Undischarged('overlapping rows of the linear system')
                out.append(('one', k, v)); continue
            cs = self.contents_of.get(d.get_id()); f = self.frames_of.get(d.get_id())
            if cs and f:
                if any(x[0] == 'many' for x in out): raise Undischarged('rows of the linear system written by several loops')
                for x in out:
                    if x[0] == 'one' and not self.entails(f[1](x[1])): raise Undischarged('overlapping rows of the linear system')
                for c in cs: out.append(('many',) + tuple(c[1:]))
                region.append(f[1]); d = f[2]; continue
            if z3.is_const_array(d): return out
            raise Undischarged('rows of the linear system not characterised')
    def entries(self, row):
        """[(column, value)] of a row that is zero elsewhere"""
        out = []
        while not z3.is_const_array(row):
            if not z3.is_store(row): raise Undischarged('row of the linear system not characterised')
            a, c, v = row.children(); row = a
            same = [const_diff(c, c2) for c2, _ in out]
            if any(x is None for x in same): raise Undischarged('columns of the linear system not characterised')
            if 0 in same: continue
            out.append((c, v))
        z = row.children()[0]
        if not (z3.is_rational_value(z) and z.numerator_as_long() == 0): raise Undischarged('row of the linear system not zero elsewhere')
        return out
    def scoped(self, fn):
        """run fn with local hypotheses (no branching inside)"""
        s = self.save(); self.solver.push()
        try: return fn()
        finally:
            n = self.obn; self.solver.pop(); self.restore(s); self.obn = n
    def scoped_end(self, fn):
        """scoped, where contradictory local hypotheses are a success"""
        def f():
            try: fn()
            except PathEnd: pass
        self.scoped(f)
    def resolve_row(self, row): return z3.simplify(row)
    def induct(self, lo, hi, fn, label, trig, step_hint=None):
        """prove fn(lo) and fn(j) -> fn(j+1) for lo<=j<hi, then assume fn on [lo,hi]"""
        self.oblige(fn(iv(lo)), label + ' (base)', 'lemma')
        def step():
            j = self.fresh('ind', I)
            self.add(z3.And(j >= lo, j < hi), True); self.add(fn(j), True)
            if step_hint: step_hint(j)
            self.oblige(fn(z3.simplify(j + 1)), label + ' (step)', 'lemma')
        self.scoped(step)
        self.addq(QF(iv(lo), z3.simplify(iv(hi) + 1), fn, trig, name=label))
    def oblige_poly(self, lhs, rhs, label, hyps=(), subs=(), kind='post'):
        """equation proved as polynomial identity modulo the linear span of hyps (pairs), after the
        substitutions subs (each of which must be an equation that holds here)"""
        for a, b in subs:
            if not self.entails(a == b): raise Undischarged('substitution %s not justified' % a)
        self.hint = (lhs, rhs, hyps, subs)
        try: return self.oblige(lhs == rhs, label, kind)
        finally: self.hint = None
    def poly_hint(self):
        lhs, rhs, hyps, subs = self.hint
        def ap(t):
            t = z3.simplify(t)
            for a, b in subs: t = z3.simplify(z3.substitute(t, (a, b)))
            return t
        try:
            cv = Conv()
            goal = cv.poly(ap(lhs)) - cv.poly(ap(rhs))
            if not goal.d: return True
            hs = [cv.poly(ap(a)) - cv.poly(ap(b)) for a, b in hyps]
            if not cv.side: return in_span(goal, hs)
            if not self.side_ok(cv): return False
            return self.clear_denoms(goal, cv, lambda p: p, hs)
        except TooBig: return False
    def mat_set(self, m, i, j, x):
        if isinstance(m, SMat):
            if cint(iv(m.c)) == 1:
                return SMat(m.r, m.c, z3.K(I, z3.Store(z3.simplify(z3.Select(m.d, z3.IntVal(0))), iv(i), x)))
            row = self.row(m.d, iv(i))
            return SMat(m.r, m.c, z3.Store(m.d, iv(i), z3.simplify(z3.Store(row, iv(j), x))))
        return super().mat_set(m, i, j, x)
    def eig_set(self, sh, obj, g):
        ints = [x for x in g if isinstance(x, z3.ArithRef) and x.sort() == I]
        m = self.M(obj)
        if sh in ('setZero', 'setConstant', 'setOnes') and (isinstance(m, SMat) or any(cint(x) is None for x in ints)):
            fill = z3.RealVal(0) if sh == 'setZero' else z3.RealVal(1) if sh == 'setOnes' else rv(g[-1])
            r, c = (iv(m.r), iv(m.c))
            vec = getattr(obj, 't', None)
            if len(ints) == 1: r = ints[0]; c = z3.IntVal(1)
            elif len(ints) == 2: r, c = ints
            obj.store(SMat(r, c, z3.K(I, z3.K(I, fill)))); return obj
        if isinstance(m, SMat): raise Unsupported('Eigen ' + sh + ' on a matrix of symbolic size')
        return super().eig_set(sh, obj, g)
    def eig_static(self, sh, r, vals, e):
        ints = [x for x in (self.rval(v) for v in vals) if isinstance(x, z3.ArithRef) and x.sort() == I]
        if any(cint(x) is None for x in ints) and sh in ('Zero', 'Constant', 'Ones'):
            fill = z3.RealVal(0) if sh == 'Zero' else z3.RealVal(1) if sh == 'Ones' else rv(self.rval(vals[-1]))
            if sh == 'Constant' and len(ints) == len(vals): ints = ints[:-1]
            return SMat(ints[0], ints[1] if len(ints) > 1 else z3.IntVal(1), z3.K(I, z3.K(I, fill)))
        return super().eig_static(sh, r, vals, e)
    def eig_alloc(self, ty, g):
        if any(cint(x) is None for x in g if isinstance(x, z3.ArithRef)):
            rr, cc = self.eig_dims(ty)
            ints = list(g)
            if rr < 0 and cc < 0: r, c = ints[0], ints[1]
            elif rr < 0: r, c = ints[0], z3.IntVal(cc)
            else: r, c = z3.IntVal(rr), ints[0]
            return SMat(r, c, self.fresh('!uninit', z3.ArraySort(I, AR)))
        return super().eig_alloc(ty, g)
    def vec_alloc(self, et, n, fill):
        if cint(n) is not None: return super().vec_alloc(et, n, fill)
        self.oblige(z3.And(n >= 0, n <= MAXN), 'vector allocation of plausible size', 'safety')
        x = self.tosym(fill if fill is not None else self.value_construct(et), et)
        return SVec(n, et, {p: z3.K(I, y) for p, y in self.flat(x)})
    def vec_empty(self, v):
        return CVec([], v.et)
    def push(self, lv, x):
        v = lv.load()
        if isinstance(v, SVec):
            w = self.svec_set(v, v.n, x)
            lv.store(SVec(z3.simplify(v.n + 1), v.et, w.lv)); return
        super().push(lv, x)
    def vector(self, sh, r, obj, vals):
        lv = self.lval(obj); v = lv.load()
        if isinstance(v, SVec):
            if sh == 'pop_back':
                self.bounds(v, v.n - 1, 'pop_back'); lv.store(SVec(z3.simplify(v.n - 1), v.et, v.lv)); return None
            if sh in ('resize', 'assign') and isinstance(self.rval(vals[0]), z3.ArithRef): return self.resize_sym(lv, v, sh, vals)
        elif isinstance(v, CVec):
            if sh in ('resize', 'assign') and vals and isinstance(self.rval(vals[0]), z3.ArithRef) and cint(self.rval(vals[0])) is None:
                return self.resize_sym(lv, self.svec_of(v), sh, vals)
        if sh == 'assign' and len(vals) == 2 and isinstance(self.rval(vals[0]), VIter):
            lv.store(self.vec_range(v.et, self.rval(vals[0]), self.rval(vals[1]))); return None
        return super().vector(sh, r, obj, vals)
    def resize_sym(self, lv, v, sh, vals):
        n = self.rval(vals[0])
        fill = self.tosym(self.rval(vals[1]) if len(vals) > 1 else self.value_construct(v.et), v.et)
        self.oblige(z3.And(n >= 0, n <= MAXN), 'vector size plausible', 'safety')
        if sh == 'assign' or cint(v.n) == 0:
            lv.store(SVec(n, v.et, {p: z3.K(I, y) for p, y in self.flat(fill)})); return None
        if self.entails(n <= v.n): lv.store(SVec(n, v.et, v.lv)); return None
        new = {}
        for p, y in self.flat(fill):
            a = self.fresh('!resized', z3.ArraySort(I, y.sort())); old = v.lv[p]; on = v.n
            new[p] = a
            self.addq(QF(z3.IntVal(0), n, (lambda a, old, on, y: lambda j: z3.Select(a, j) == z3.If(j < on, z3.Select(old, j), y))(a, old, on, y), [direct(a)]))
        lv.store(SVec(n, v.et, new)); return None
    def vec_range(self, et, a, b):
        k = cint(self.itdist(a, b))
        if k is not None or not isinstance(a, VIter): return super().vec_range(et, a, b)
        v = a.lv.load()
        if not isinstance(v, SVec): raise Unsupported('symbolic range')
        n = z3.simplify(iv(b.i) - iv(a.i))
        self.oblige(z3.And(iv(a.i) >= 0, n >= 0, iv(b.i) <= v.n), 'valid iterator range', 'safety')
        if cint(iv(a.i)) == 0: return SVec(n, et, v.lv)
        new = {}
        for p, arr in v.lv.items():
            x = self.fresh('!range', arr.sort()); new[p] = x
            self.addq(QF(z3.IntVal(0), n, (lambda x, arr, o: lambda j: z3.Select(x, j) == z3.Select(arr, j + o))(x, arr, iv(a.i)), [direct(x)]))
        return SVec(n, et, new)

    # ------------------------------------------------------------ contracts
    def contract_for(self, fid, r):
        c = self.contracts.get(fid)
        if c is None or fid == getattr(self, 'verifying', None) and self.depth == 0: return None
        return c
    def apply_contract(self, c, fid, r, obj, vals):
        self.stats['contracts_used'].add(r['name'])
        return c(self, fid, r, obj, vals)

    # ------------------------------------------------------------ sub-exploration
    def save(self):
        return dict(pc=list(self.pc), pcmark=list(self.pcmark), q=list(self.q), seen={k: dict(v) for k, v in self.seen.items()}, scanned=set(self.scanned),
                    sums={k: dict(v) for k, v in self.sums.items()}, nonneg=list(self.nonneg), frames_of=dict(self.frames_of), contents_of={k: list(v) for k, v in self.contents_of.items()}, solves=list(self.solves), mfacts=list(self.mfacts), names=dict(self.names), prefix=self.prefix, dec=list(self.dec), work=self.work,
                    frames=[dict(f, v=dict(f['v'])) for f in self.frames], depth=self.depth, where=self.where, globals=dict(self.globals), uid=self.uid, obn=self.obn,
                    nsym=list(self.nsym), reg=list(Root._reg), vals=[r.v for r in Root._reg], quiet=self.quiet, ctx=self.ctx, instn=self.instn, abort_ok=self.abort_ok, loopn=self.loopn, weak=self.weak)
    def restore(self, s):
        self.pc = list(s['pc']); self.pcmark = list(s['pcmark']); self.q = list(s['q']); self.seen = {k: dict(v) for k, v in s['seen'].items()}; self.scanned = set(s['scanned'])
        self.sums = {k: dict(v) for k, v in s['sums'].items()}; self.nonneg = list(s['nonneg']); self.frames_of = dict(s['frames_of']); self.contents_of = {k: list(v) for k, v in s['contents_of'].items()}; self.solves = list(s['solves']); self.mfacts = list(s['mfacts']); self.names = dict(s['names'])
        self.prefix = s['prefix']; self.dec = list(s['dec']); self.work = s['work']
        for f, g in zip(self.frames, s['frames']): f['v'] = dict(g['v'])
        del self.frames[len(s['frames']):]
        self.depth = s['depth']; self.where = s['where']; self.globals = dict(s['globals']); self.uid = s['uid']; self.obn = s['obn']; self.nsym = list(s['nsym'])
        Root._reg = list(s['reg'])
        for r, v in zip(s['reg'], s['vals']): r.v = v
        self.quiet = s['quiet']; self.ctx = s['ctx']; self.instn = s['instn']; self.abort_ok = s['abort_ok']; self.loopn = s['loopn']; self.weak = s['weak']
    def subexplore(self, fn, key):
        """run fn() on every path from the current state, quietly; fn returns an outcome (or None)"""
        s = self.save()
        outs = []; work = [[]]; n = 0
        try:
            while work:
                pre = work.pop(); n += 1
                if n > 200: raise Unsupported('too many paths in a loop body')
                if self.cfg.deadline and time.time() > self.cfg.deadline: raise Unsupported('time budget exhausted')
                self.restore(s)
                self.solver.push()
                self.quiet = 1; self.dec = []; self.prefix = pre; self.work = work; self.ctx = s['ctx'] + (tuple(s['dec']), key)
                try:
                    o = fn()
                    if o is not None: outs.append(o)
                except (PathEnd, ReturnEx, ProgAbort): pass
                finally: self.solver.pop()
        finally:
            self.restore(s)
        return outs

    # ------------------------------------------------------------ loops
    def once(self, s):
        """one trip: True = reached the back edge, False = left by the condition or break"""
        k = s['k']
        if s['c'] is not None and not self.decide(self.truth(s['c'])): return False
        return self.body(s)
    def body(self, s):
        k = s['k']
        try:
            if k == 'range': self.stmt(s['var'])
            self.stmt(s['b'])
        except BreakEx: return False
        except ContinueEx: pass
        if k in ('for', 'range') and s['inc'] is not None: self.ev(s['inc'])
        return True
    def literal_cond(self, s):
        if s['c'] is None: return False
        if s['c']['k'] in ('bool', 'int'): return False
        s2 = self.save(); q = self.quiet
        self.solver.push()
        try:
            self.quiet = 1; self.work = []; self.prefix = list(self.dec)
            n0 = len(self.dec)
            c = z3.simplify(self.truth(s['c']))
            return (z3.is_true(c) or z3.is_false(c)) and len(self.dec) == n0
        except PathEnd: return True
        finally:
            self.solver.pop(); self.restore(s2)
    def symbolic_loop(self, s):
        if s['k'] == 'do':
            if not self.body(s): return True
        if s['k'] != 'do' and self.literal_cond(s): return False
        self.loopn += 1
        key = (self.tag, self.ctx, tuple(self.dec), self.loopn)
        L = self.loopcache.get(key)
        if L is None:
            L = self.infer(s, key)
            self.loopcache[key] = L
        self.use_loop(s, L)
        return True

    def leafval(self, ref):
        ri, path = ref
        for p, x in self.flat(Root._reg[ri].v):
            if p == path: return x
        return None
    def diff(self, before, nroots):
        """leaves of the registered roots that differ from the snapshot: list of (root index, path); conversions needed"""
        mod = []; conv = []
        for ri in range(nroots):
            a = before[ri]; b = Root._reg[ri].v
            if a is b: continue
            self.diffv(a, b, ri, (), mod, conv)
        return mod, conv
    def diffv(self, a, b, ri, path, mod, conv):
        if a is b: return
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if not z3.simplify(a).eq(z3.simplify(b)): mod.append((ri, path))
            return
        if isinstance(a, (CVec, SVec)) and isinstance(b, (CVec, SVec)):
            if isinstance(a, CVec) and isinstance(b, CVec) and len(a.e) == len(b.e):
                for k, (x, y) in enumerate(zip(a.e, b.e)): self.diffv(x, y, ri, path + (('i', k),), mod, conv)
                return
            if isinstance(a, CVec) or isinstance(b, CVec):
                if isinstance(a, CVec): conv.append((ri, path))
                else:   # SVec became a concrete (cleared) vector
                    mod.append((ri, path + (('n',),)))
                    for p in a.lv: mod.append((ri, path + (('v', p),)))
                return
            if not z3.simplify(a.n).eq(z3.simplify(b.n)): mod.append((ri, path + (('n',),)))
            for p in a.lv:
                if not a.lv[p].eq(b.lv[p]) and not z3.simplify(a.lv[p]).eq(z3.simplify(b.lv[p])): mod.append((ri, path + (('v', p),)))
            return
        if type(a) is not type(b):
            raise Unsupported('value changes representation in a loop (%s to %s)' % (type(a).__name__, type(b).__name__))
        if isinstance(a, Rec):
            for k in a.f: self.diffv(a.f[k], b.f[k], ri, path + (('f', k),), mod, conv)
        elif isinstance(a, Arr):
            for k, (x, y) in enumerate(zip(a.e, b.e)): self.diffv(x, y, ri, path + (('i', k),), mod, conv)
        elif isinstance(a, Pair):
            self.diffv(a.a, b.a, ri, path + (('a',),), mod, conv); self.diffv(a.b, b.b, ri, path + (('b',),), mod, conv)
        elif isinstance(a, Mat):
            if (a.r, a.c) != (b.r, b.c): raise Unsupported('matrix changes size in a loop')
            for k, (x, y) in enumerate(zip(a.e, b.e)): self.diffv(x, y, ri, path + (('m', k),), mod, conv)
        elif isinstance(a, SMat):
            vec = cint(iv(a.c)) == 1 and cint(iv(b.c)) == 1
            for nm, x, y in (('r', iv(a.r), iv(b.r)), ('c', iv(a.c), iv(b.c)), ('e', z3.Select(a.d, z3.IntVal(0)), z3.Select(b.d, z3.IntVal(0))) if vec else ('d', a.d, b.d)): self.diffv(x, y, ri, path + ((nm,),), mod, conv)
        elif isinstance(a, VIter):
            if a.lv is not b.lv and not (a.lv is not None and b.lv is not None and a.lv.root()[0] is b.lv.root()[0]): raise Unsupported('iterator retargeted in a loop')
            self.diffv(iv(a.i), iv(b.i), ri, path + (('it',),), mod, conv)
        elif isinstance(a, Ptr):
            if a.lv is b.lv and a.idx is not None and b.idx is not None: self.diffv(iv(a.idx), iv(b.idx), ri, path + (('px',),), mod, conv)
            elif a.lv is None and b.lv is None: pass
            else: raise Unsupported('pointer retargeted in a loop')
        elif isinstance(a, (Opaque, Lam)) or a is None: pass
        else: raise Unsupported('loop modifies ' + type(a).__name__)
    def convert(self, conv):
        for ri, path in conv:
            root = Root._reg[ri]
            root.v = self.conv_at(root.v, path)
    def conv_at(self, v, path):
        if not path: return self.svec_of(v)
        h, t = path[0], path[1:]
        if h[0] == 'f': return v.set(h[1], self.conv_at(v.f[h[1]], t))
        if h[0] == 'i':
            e = list(v.e); e[h[1]] = self.conv_at(e[h[1]], t); return Arr(e) if isinstance(v, Arr) else CVec(e, v.et)
        if h[0] == 'a': return Pair(self.conv_at(v.a, t), v.b)
        if h[0] == 'b': return Pair(v.a, self.conv_at(v.b, t))
        raise Unsupported('conversion in a loop')
    def head(self, L, k, init):
        """set the modified leaves to their value after k iterations"""
        per = {}
        L['h'] = {}
        for ref in L['mod']:
            x0 = init[ref]
            if ref in L['forms']: x = L['forms'][ref][1](k)
            else:
                x = self.fresh('h_%d_%s' % (ref[0], self.pname(ref[1])), x0.sort())
            L['h'][ref] = x
            per.setdefault(ref[0], {})[ref[1]] = x
        for ri, sub in per.items():
            root = Root._reg[ri]; root.v = self.rebuild(root.v, sub)
        self.head_hook()
        for ref in L['mod']:
            x = L['h'][ref]
            if ref not in L['forms'] and x.sort() == I:
                if ref[1] and ref[1][-1] == ('n',): self.add(z3.And(x >= 0, x <= MAXN), True)
                else: self.int_range(ref, x)
        for f in L['facts']:
            for y in f[1](lambda r: L['h'].get(r, init.get(r)), k):
                if isinstance(y, QF):
                    self.addq(y)
                    if y.info and y.info[0] == 'frame': self.frames_of[y.info[1].get_id()] = y.info[1:]
                    if y.info and y.info[0] == 'content': self.contents_of.setdefault(y.info[1].get_id(), []).append(y.info[1:])
                else: self.add(y, True)
    def head_hook(self): pass
    def after_loop(self, s, L, k, n0): pass
    def needs_conv(self, v): return isinstance(v, CVec)
    def int_range(self, ref, x):
        t = Root._reg[ref[0]].t
        if t is not None and not ref[1]:
            tt = self.P.T(self.P.strip(t))
            if tt.get('int'):
                lo, hi = self.irange(tt); self.add(z3.And(x >= lo, x <= hi), True); return
    def infer(self, s, key):
        nroots = len(Root._reg)
        L = {'mod': [], 'forms': {}, 'facts': [], 'conv': [], 'banned': set(), 'h': {}}
        outer = self.save()
        self.solver.push()
        try:
            self.quiet = 1
            k = z3.Const('k!%s' % abs(hash(str(key))), I)
            L['k'] = k
            # 1. what does the body modify?
            for it in range(12):
                self.convert([c for c in L['conv'] if self.needs_conv(self.at(Root._reg[c[0]].v, c[1]))])
                init = self.initvals(L)
                def run():
                    self.add(k >= 0, True)
                    self.head(dict(L, forms={}, facts=[]), k, init)
                    before = [r.v for r in Root._reg[:nroots]]
                    if not self.once(s): return None
                    return self.diff(before, nroots)
                outs = self.subexplore(run, (key, 'mod', it) if self.rekey else key)
                new = False
                for mod, conv in outs:
                    for c in conv:
                        if c not in L['conv']: L['conv'].append(c); new = True
                for mod, conv in outs:
                    for m in mod:
                        if m not in L['mod'] and not any(m[0] == c[0] and m[1][:len(c[1])] == c[1] for c in L['conv'] if not m[1][len(c[1]):][:1] or m[1][len(c[1])][0] == 'i'):
                            L['mod'].append(m); new = True
                if not new: break
            else: raise Unsupported('modified set of a loop does not stabilise')
            # 2. invariants
            for rnd in range(self.rounds):
                init = self.initvals(L)
                pc0 = set()
                for f in self.pc: pc0 |= consts_of(f)
                for x in init.values(): pc0 |= consts_of(x)
                for ri in range(nroots):
                    for p, x in self.flat(Root._reg[ri].v): pc0 |= consts_of(x)
                L['allowed'] = pc0
                def run():
                    self.add(k >= 0, True)
                    self.head(L, k, init)
                    n0 = len(self.pc)
                    h = dict(L['h'])
                    if not self.once(s): return None
                    end = {r: self.leafval(r) for r in L['mod']}
                    if any(v is None for v in end.values()): raise Unsupported('shape of a loop variable changes')
                    bad = []
                    for r, (nm, f) in L['forms'].items():
                        if not self.quick(end[r] == f(k + 1)): bad.append(('form', r, nm))
                    for nm, f in L['facts']:
                        for y in f(lambda r: end.get(r, init.get(r)), z3.simplify(k + 1)):
                            ok = self.quick_all(y) if isinstance(y, QF) else self.quick(y)
                            if not ok:
                                if getattr(self, 'dbg', 0): print('FAIL', nm, y.name if isinstance(y, QF) else y)
                                bad.append(('fact', nm)); break
                    conds = [f for f, g in zip(self.pc[n0:], self.pcmark[n0:]) if not g]
                    return bad, end, h, conds
                outs = self.subexplore(run, (key, 'inv', rnd) if self.rekey else key)
                bad = {b for o in outs for b in o[0]}
                if bad:
                    for b in bad:
                        L['banned'].add(b)
                        if b[0] == 'form': L['forms'].pop(b[1], None)
                        else: L['facts'] = [f for f in L['facts'] if f[0] != b[1]]
                    # facts that mention dropped forms are regenerated
                    if any(b[0] == 'form' for b in bad): L['facts'] = [f for f in L['facts'] if any(f[0] == 'inside%s' % (r,) for r in L['forms'])]
                    continue
                if not self.candidates(L, init, outs, k): break
            else: raise Unsupported('loop invariants do not stabilise')
            L['weak'] = self.loop_weak(L, outs)
        finally:
            self.solver.pop(); self.restore(outer)
        return L
    def loop_weak(self, L, outs):
        """is some modified leaf not pinned down by a closed form or by complete contents?"""
        names = [f[0] for f in L['facts']]
        for ref in L['mod']:
            if ref in L['forms']: continue
            if any(nm.startswith('total%s' % (ref,)) for nm in names): continue
            if 'frame%s' % (ref,) in names and outs and all(self.stores(o[1][ref], o[2][ref]) is not None for o in outs):
                m = max(len({z3.simplify(i).get_id() for i, _ in self.stores(o[1][ref], o[2][ref])}) for o in outs)
                if sum(nm.startswith('content%s-' % (ref,)) for nm in names) >= m: continue
            return True
        return False
    def at(self, v, path):
        for h in path:
            if h[0] == 'f': v = v.f[h[1]]
            elif h[0] == 'i': v = v.e[h[1]]
            elif h[0] == 'a': v = v.a
            elif h[0] == 'b': v = v.b
            else: return v
        return v
    def initvals(self, L):
        out = {}
        for ref in L['mod']:
            x = self.leafval(ref)
            if x is None: raise Unsupported('loop variable lost')
            out[ref] = x
        return out
    def candidates(self, L, init, outs, k):
        """propose new closed forms / facts from the back-edge states; True if something was added"""
        if not outs: return False
        added = False
        def try_form(ref, nm, f):
            nonlocal added
            if ref in L['forms'] or ('form', ref, nm) in L['banned']: return False
            if not self.quick(f(z3.IntVal(0)) == init[ref]): L['banned'].add(('form', ref, nm)); return False
            L['forms'][ref] = (nm, f); added = True; return True
        def try_fact(nm, f):
            nonlocal added
            if any(x[0] == nm for x in L['facts']) or ('fact', nm) in L['banned']: return False
            for y in f(lambda r: init[r], z3.IntVal(0)):
                if not (self.quick_all(y) if isinstance(y, QF) else self.quick(y)): L['banned'].add(('fact', nm)); return False
            L['facts'].append((nm, f)); added = True; return True
        allowed = L['allowed'] | {k.decl().name()}
        closed = lambda t: consts_of(t) <= allowed
        self.early_candidates(L, init, outs, k, try_form, try_fact)
        # integers with constant step
        for ref in L['mod']:
            if init[ref].sort() == I and ref not in L['forms']:
                ds = {const_diff(o[1][ref], o[2][ref]) for o in outs}
                if len(ds) == 1 and None not in ds:
                    d = ds.pop()
                    try_form(ref, 'step', (lambda x0, d: lambda kk: z3.simplify(x0 + d * kk))(init[ref], d))
        if added: return True
        # booleans that keep their value
        for ref in L['mod']:
            if init[ref].sort() == B and ref not in L['forms']:
                try_form(ref, 'same', (lambda x0: lambda kk: x0)(init[ref]))
        # reals: accumulated sums, telescoping differences, constant
        ints = [L['forms'][r][1] for r in L['mod'] if r in L['forms'] and init[r].sort() == I]
        for ref in L['mod']:
            x0 = init[ref]
            if x0.sort() != R or ref in L['forms']: continue
            ds = []
            for o in outs:
                d = z3.simplify(o[1][ref] - o[2][ref], som=True)
                ds.append(d)
            nz = [d for d in ds if not (z3.is_rational_value(d) and d.numerator_as_long() == 0)]
            if all(d.eq(nz[0]) for d in nz) and nz and closed(nz[0]):
                g = nz[0]; done = False
                if z3.is_select(g):
                    a, i = g.children(); c = coef_of(i, k)
                    if c and c[0] == 1:
                        e0 = c[1]
                        if len(nz) == len(ds): done = try_form(ref, 'sum', (lambda x0, a, e0: lambda kk: x0 + SUM(a, z3.simplify(e0 + kk)) - SUM(a, e0))(x0, a, e0))
                        else:
                            for n in self.bounds_terms():
                                mn = (lambda n: lambda e: z3.If(e <= n - 1, e, n - 1))(n)
                                done = try_form(ref, 'sum-min-%s' % n, (lambda x0, a, e0, mn: lambda kk: x0 + SUM(a, z3.simplify(mn(e0 + kk))) - SUM(a, z3.simplify(mn(e0))))(x0, a, e0, mn))
                                if done: break
                if not done and len(nz) == len(ds):
                    tl = self.telescope(g, k)
                    if tl is not None: done = try_form(ref, 'telescope', (lambda x0, tl: lambda kk: x0 + tl(kk) - tl(z3.IntVal(0)))(x0, tl))
                if not done and len(nz) == len(ds):
                    G = z3.Const('G!%s' % abs(hash(str((ref, str(g))))), AR)
                    fg = (lambda g: lambda j: z3.substitute(g, (k, j)))(g)
                    if try_fact('defG%s' % (ref,), (lambda G, fg: lambda get, kk: [QF(None, None, lambda j: z3.Select(G, j) == fg(j), [direct(G)])])(G, fg)):
                        pass
            if ref not in L['forms']:
                # value assigned afresh in every iteration: x(k) = g(k-1)
                es = [z3.simplify(o[1][ref]) for o in outs]
                if all(e.eq(es[0]) for e in es) and closed(es[0]):
                    ge = (lambda g: lambda j: z3.substitute(g, (k, j)))(es[0])
                    try_form(ref, 'last', (lambda x0, ge: lambda kk: z3.simplify(z3.If(iv(kk) == 0, x0, ge(z3.simplify(iv(kk) - 1)))))(x0, ge))
            if not nz and ref not in L['forms']: try_form(ref, 'same', (lambda x0: lambda kk: x0)(x0))
        for ref in L['mod']:
            if init[ref].sort() != R: continue
            # equals the sum of a whole vector
            for vr, n_of, a_of, nm in self.vec_leaves(L, init):
                try_fact('total%s-%s' % (ref, nm), (lambda ref, n_of, a_of: lambda get, kk: [get(ref) == SUM(a_of(get), n_of(get))])(ref, n_of, a_of))
            # grows
            if ref in L['forms'] and L['forms'][ref][0] in ('sum', 'telescope'):
                try_fact('grows%s' % (ref,), (lambda ref, x0: lambda get, kk: [get(ref) >= x0])(ref, init[ref]))
                try_fact('growsstrictly%s' % (ref,), (lambda ref, x0: lambda get, kk: [z3.Implies(iv(kk) >= 1, get(ref) > x0)])(ref, init[ref]))
        # other scalars assigned from a closed expression
        for ref in L['mod']:
            if ref in L['forms'] or init[ref].sort() in (R,) or z3.is_array_sort(init[ref].sort()) if False else ref in L['forms']: continue
            if init[ref].sort() in (I, B):
                es = [z3.simplify(o[1][ref]) for o in outs]
                if all(e.eq(es[0]) for e in es) and closed(es[0]):
                    ge = (lambda g: lambda j: z3.substitute(g, (k, j)))(es[0])
                    try_form(ref, 'last', (lambda x0, ge: lambda kk: z3.simplify(z3.If(iv(kk) == 0, x0, ge(z3.simplify(iv(kk) - 1)))))(init[ref], ge))
        if added: return True
        # arrays: stores at k-dependent indices
        for ref in L['mod']:
            x0 = init[ref]
            if not isinstance(x0, z3.ArrayRef) or ref in L['forms']: continue
            st = [self.stores(o[1][ref], o[2][ref]) for o in outs]
            if any(x is None for x in st): continue
            sub = [(o[2][r], init[r]) for o in outs[:1] for r in L['mod'] if isinstance(init[r], z3.ArrayRef) and r not in L['forms']]
            def norm(lst): return [(z3.simplify(i), z3.simplify(z3.substitute(v, *sub)) if sub else v) for i, v in lst]
            st = [norm(x) for x in st]
            main = max(st, key=len)
            idx = [i for i, v in main]
            cf = [coef_of(i, k) if closed(i) else None for i in idx]
            if not idx or any(c is None for c in cf): continue
            steps = {c[0] for c in cf}
            if len(steps) != 1: continue
            d = steps.pop()
            base = cf[0][1]
            offs = [const_diff(c[1], base) for c in cf]
            if any(o is None for o in offs): continue
            if d <= 0: 
                if d == 0: continue
            lo = z3.simplify(base + min(offs)); hiof = (lambda base, offs, d: lambda kk: z3.simplify(base + max(offs) + d * (iv(kk) - 1)))(base, offs, d)
            if d > 0:
                def mkf(ref, x0, lo, hiof):
                    def f(get, kk):
                        reg = lambda r: z3.Or(iv(kk) <= 0, r < lo, r > hiof(kk))
                        return [QF(None, None, lambda r: z3.Implies(reg(r), z3.Select(get(ref), r) == z3.Select(x0, r)), [direct(get(ref))], info=('frame', get(ref), reg, x0))]
                    return f
                new = try_fact('frame%s' % (ref,), mkf(ref, x0, lo, hiof))
                if new and x0.sort().range() == AR: continue    # contents once the frame is known
            for q, ((i, v), c) in enumerate(zip(main, cf)):
                if self.rekey:
                    if any(not any(i2.eq(i) for i2, _ in x) for x in st): continue
                    at = [[v2 for i2, v2 in x if i2.eq(i)][-1] for x in st]
                else:
                    if any(len(x) != len(main) or not x[q][0].eq(i) for x in st): continue
                    at = [x[q][1] for x in st]
                if any(not y.eq(v) for y in at):      # by cases on the branches taken
                    cs = [[c2 for c2 in o[3] if closed(c2)] for o in outs]
                    if any(not x for x in cs): continue
                    v = at[-1]
                    for y, c2 in list(zip(at, cs))[-2::-1]: v = z3.If(z3.And(c2), y, v)
                    v = z3.simplify(v)
                if not closed(v): continue
                if any(i2.eq(i) for i2, _ in main[q + 1:]): continue
                def mk(ref, c, v, d):
                    vj = lambda j: z3.substitute(v, (k, j))
                    inv = (lambda idx: z3.simplify((idx - c[1]) * d)) if d in (1, -1) else (lambda idx: quot(idx - c[1], d))
                    return lambda get, kk: [QF(z3.IntVal(0), iv(kk), lambda j: z3.Select(get(ref), z3.simplify(c[1] + d * j)) == vj(j), [(get(ref), inv)], always=[z3.simplify(iv(kk) - 1)], info=('content', get(ref), c[1], d, vj, iv(kk)))]
                try_fact('content%s-%d' % (ref, q), mk(ref, c, v, d))
        # what every completed iteration has established
        alts = []
        sub = [(o2, init[r]) for r in L['mod'] if isinstance(init[r], z3.ArrayRef) for o2 in [None]]
        for o in outs:
            cs = [c for c in o[3] if closed(c)]
            alts.append(z3.And(cs) if len(cs) != 1 else cs[0])
        alts = [z3.simplify(z3.And(a)) if not z3.is_bool(a) else z3.simplify(a) for a in alts]
        if alts and not any(z3.is_true(a) for a in alts):
            F = z3.simplify(z3.Or(alts)) if len(alts) > 1 else alts[0]
            fj = lambda j: z3.substitute(F, (k, iv(j)))
            tj = z3.Const('tj!', I)
            trig = auto_trig(z3.substitute(F, (k, tj)), tj)
            try_fact('path-%d' % F.get_id() if False else 'path-' + str(F.hash()), lambda get, kk: [QF(z3.IntVal(0), iv(kk), fj, trig, always=[z3.simplify(iv(kk) - 1), z3.IntVal(0)])])
        added = self.extra_candidates(L, init, outs, k, try_form, try_fact) or added
        return added
    def early_candidates(self, L, init, outs, k, try_form, try_fact): pass
    def extra_candidates(self, L, init, outs, k, try_form, try_fact): return False
    def bounds_terms(self):
        out = []; seen = set()
        for r in Root._reg:
            for p, x in self.flat(r.v):
                if p and p[-1] == ('n',) and x.get_id() not in seen and cint(x) is None: seen.add(x.get_id()); out.append(x)
        return out
    def vec_leaves(self, L, init):
        """(ref, n getter, array getter, name) of every Real leaf of every modified vector"""
        out = []
        for ref in L['mod']:
            p = ref[1]
            if p and p[-1][0] == 'v' and init[ref].sort() == AR:
                nref = (ref[0], p[:-1] + (('n',),))
                n0 = self.leafval(nref)
                if n0 is None: continue
                out.append((ref, (lambda nref, n0: lambda get: get(nref) if nref in init else n0)(nref, n0), (lambda ref: lambda get: get(ref))(ref), self.pname(p)))
        return out
    def telescope(self, g, k):
        """g(k) = a[e+1] - a[e] with e = k + c  ->  k |-> a[k + c]"""
        ch = g.children()
        sels = []
        def walk(x, sgn):
            if z3.is_select(x): sels.append((sgn, x)); return True
            if z3.is_add(x): return all(walk(y, sgn) for y in x.children())
            if z3.is_sub(x): return walk(x.children()[0], sgn) and all(walk(y, -sgn) for y in x.children()[1:])
            if z3.is_mul(x) and len(x.children()) == 2 and z3.is_rational_value(x.children()[0]) and x.children()[0].as_fraction() == -1: return walk(x.children()[1], -sgn)
            if x.decl().kind() == z3.Z3_OP_UMINUS: return walk(x.children()[0], -sgn)
            return False
        if not walk(g, 1) or len(sels) != 2: return None
        pos = [x for s_, x in sels if s_ > 0]; neg = [x for s_, x in sels if s_ < 0]
        if len(pos) != 1 or len(neg) != 1: return None
        (a, i), (b, j) = pos[0].children(), neg[0].children()
        if not a.eq(b) or const_diff(i, j) != 1: return None
        return lambda kk: z3.Select(b, z3.simplify(z3.substitute(j, (k, iv(kk)))))
    def stores(self, end, head):
        """end as a chain of stores over head: [(idx,val)...] oldest first; None if not of that form"""
        out = []
        end = z3.simplify(end)
        while not end.eq(head):
            if not z3.is_store(end): return None
            a, i, v = end.children(); out.append((i, v)); end = a
        return out[::-1]
    def use_loop(self, s, L):
        self.convert([c for c in L['conv'] if self.needs_conv(self.at(Root._reg[c[0]].v, c[1]))])
        init = self.initvals(L)
        k = self.fresh('k', I)
        self.add(k >= 0, True)
        if L['weak']: self.weak = True
        n0 = len(self.pc)
        # the stored forms are written over the inference constant: rename it
        L2 = dict(L); L2['h'] = {}
        for nm, f in L['facts']:
            for y in f(lambda r: init[r], z3.IntVal(0)):
                if isinstance(y, QF): self.oblige_all(y.lo, y.hi, y.fn, 'loop invariant holds on entry: ' + nm[:40], 'invariant')
                else: self.oblige(y, 'loop invariant holds on entry: ' + nm[:40], 'invariant')
        self.head(L2, k, init)
        if not self.once(s): self.after_loop(s, L2, k, n0); return
        self.oblige(k < MAXTRIPS, 'loop terminates (bounded number of trips)', 'termination')
        end = {r: self.leafval(r) for r in L['mod']}
        for r, (nm, f) in L['forms'].items():
            self.oblige(end[r] == f(z3.simplify(k + 1)), 'loop invariant preserved: %s of %s' % (nm, self.pname(r[1])), 'invariant')
        for nm, f in L['facts']:
            for y in f(lambda r: end.get(r, init.get(r)), z3.simplify(k + 1)):
                if isinstance(y, QF):
                    lo, hi = y.lo, y.hi
                    if y.info and y.info[0] == 'content':
                        last = z3.simplify(hi - 1)
                        self.oblige(z3.Implies(last >= lo, y.fn(last)), 'loop invariant preserved (newest): ' + nm[:40], 'invariant'); hi = last
                    self.oblige_all(lo, hi, y.fn, 'loop invariant preserved: ' + nm[:40], 'invariant')
                else: self.oblige(y, 'loop invariant preserved: ' + nm[:40], 'invariant')
        raise PathEnd()
