"""Verification-condition generator / symbolic executor for the C++ AST dumped by
extractor/extract.cpp.  Executes the *real* function bodies of /repo path by path,
with doubles read as mathematical reals and integers as mathematical integers with
explicit wrap-around.  Paths are enumerated by re-execution with a decision prefix."""
import json, sys, time, os
from fractions import Fraction
import z3
from poly import Poly, Conv, in_span, TooBig

sys.setrecursionlimit(20000)
R = z3.RealSort(); I = z3.IntSort(); B = z3.BoolSort()
Str = z3.DeclareSort('Str')

class Unsupported(Exception): pass
class PathEnd(Exception): pass          # infeasible / assumed false / cut
class ProgAbort(Exception): pass        # CHECK failure, assert failure
class ThrowEx(ProgAbort): pass          # C++ exception
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = {int(k): v for k, v in d['funcs'].items()}
        self.refs = {int(k): v for k, v in d['refs'].items()}
        self.vars = {int(k): v for k, v in d['vars'].items()}
        self.records = {int(k): v for k, v in d['records'].items()}
        self.byname = {}
        for k, r in self.refs.items(): self.byname.setdefault(r['name'], []).append(k)
        self.type_by_s = {t.get('s'): i for i, t in enumerate(self.types)}
    def T(self, i): return self.types[i]
    def strip(self, i):
        """remove reference and const"""
        t = self.types[i]
        while t['k'] in ('ref', 'rref'): i = t['to']; t = self.types[i]
        if t['const']:
            s = t['s']
            for pre in ('const ',):
                if s.startswith(pre) and s[len(pre):] in self.type_by_s: return self.type_by_s[s[len(pre):]]
            if s.endswith(' const') and s[:-6] in self.type_by_s: return self.type_by_s[s[:-6]]
        return i
    def rec_of(self, i):
        return self.records.get(self.types[i].get('rec'))
    def fields(self, i):
        """all fields (bases first) of a dumped record type"""
        r = self.rec_of(i)
        if r is None: return None
        out = []
        for b in r['bases']:
            f = self.fields(b)
            if f: out += f
        return out + r['fields']
    def find(self, name, nparams=None, pred=None):
        out = []
        for k in self.byname.get(name, []):
            if k not in self.funcs: continue
            r = self.refs[k]
            if nparams is not None and len(r['ptypes']) != nparams: continue
            if pred and not pred(r): continue
            out.append(k)
        return out

# ---------------------------------------------------------------- values
class Rec:
    __slots__ = ('t', 'f')
    def __init__(s, t, f): s.t = t; s.f = f
    def set(s, k, v):
        d = dict(s.f); d[k] = v; return Rec(s.t, d)
    def __repr__(s): return 'Rec(%s)' % s.f
class Arr:
    __slots__ = ('e',)
    def __init__(s, e): s.e = tuple(e)
    def __repr__(s): return 'Arr%s' % (s.e,)
class CVec:            # std::vector of concrete length
    __slots__ = ('e', 'et')
    def __init__(s, e, et): s.e = tuple(e); s.et = et
    def __repr__(s): return 'CVec%s' % (s.e,)
class SVec:            # std::vector of symbolic length: struct of z3 arrays
    __slots__ = ('n', 'et', 'lv')
    def __init__(s, n, et, lv): s.n = n; s.et = et; s.lv = lv
class Mat:             # Eigen matrix of concrete dims
    __slots__ = ('r', 'c', 'e')
    def __init__(s, r, c, e): s.r = r; s.c = c; s.e = tuple(e); assert len(s.e) == r * c
    def at(s, i, j): return s.e[i * s.c + j]
    def __repr__(s): return 'Mat%dx%d%s' % (s.r, s.c, s.e)
class SMat:            # Eigen matrix with symbolic dims: data[row][col]
    __slots__ = ('r', 'c', 'd')
    def __init__(s, r, c, d): s.r = r; s.c = c; s.d = d
class CMap:            # ordered map, concrete number of nodes, symbolic keys
    __slots__ = ('items', 'kt', 'vt')     # items: ((uid,key,val),...)
    def __init__(s, items, kt, vt): s.items = tuple(items); s.kt = kt; s.vt = vt
class CUMap(CMap): __slots__ = ()        # unordered map
class Ptr:
    __slots__ = ('lv', 'idx')             # lv None => null ; idx not None => element of array lv
    def __init__(s, lv, idx=None): s.lv = lv; s.idx = idx
class VIter:
    __slots__ = ('lv', 'i', 'rev')
    def __init__(s, lv, i, rev=False): s.lv = lv; s.i = i; s.rev = rev
class MIter:
    __slots__ = ('lv', 'uid', 'rev')      # uid None => end
    def __init__(s, lv, uid, rev=False): s.lv = lv; s.uid = uid; s.rev = rev
class Lam:
    def __init__(s, f, caps, this): s.f = f; s.caps = caps; s.this = this
class Opaque:
    def __init__(s, what): s.what = what
class Solver_:
    def __init__(s, A, kind): s.A = A; s.kind = kind
class Lazy:                               # result of A.solver().solve(b)
    def __init__(s, A, b): s.A = A; s.b = b
class Comma:
    def __init__(s, lv): s.lv = lv; s.i = 0; s.j = 0; s.bh = 0
class Pair:                               # std::pair
    __slots__ = ('a', 'b')
    def __init__(s, a, b): s.a = a; s.b = b
class Wrap:                               # shared_ptr / unique_ptr etc. unsupported marker
    pass

class LV: pass
class Root(LV):
    _n = 0; _reg = None
    def __init__(s, v, name='', t=None):
        s.v = v; s.name = name; s.t = t
        Root._n += 1; s.id = Root._n
        if Root._reg is not None: Root._reg.append(s)
    def load(s): return s.v
    def store(s, v): s.v = v
    def root(s): return s, ()
class Sub(LV):
    def __init__(s, vm, parent, sel): s.vm = vm; s.p = parent; s.sel = sel
    def load(s): return s.vm.select(s.p.load(), s.sel)
    def store(s, v): s.p.store(s.vm.update(s.p.load(), s.sel, v))
    def root(s):
        r, path = s.p.root()
        return r, path + (s.sel,)
class EView(LV):
    """matrix-valued view (block, Map, Ref, transpose)"""
    def __init__(s, r, c, get, set, base=None): s.r = r; s.c = c; s.get = get; s.set = set; s.base = base
    def load(s): return Mat(s.r, s.c, [s.get(i, j) for i in range(s.r) for j in range(s.c)])
    def store(s, m):
        for i in range(s.r):
            for j in range(s.c): s.set(i, j, m.at(i, j))
    def root(s): return s.base.root() if s.base is not None else (Root(None), ())

def is_num(v): return isinstance(v, z3.ArithRef) and (z3.is_int_value(v) or z3.is_rational_value(v))
def cint(v):
    """python int if the z3 Int (or int) is a literal, else None"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, z3.ExprRef):
        if z3.is_int_value(v): return v.as_long()
        w = z3.simplify(v)
        if z3.is_int_value(w): return w.as_long()
        if z3.is_true(w): return 1
        if z3.is_false(w): return 0
    return None
def rv(x):
    if isinstance(x, z3.ExprRef): return z3.ToReal(x) if x.sort() == I else x
    return z3.RealVal(Fraction(x))
def iv(x): return x if isinstance(x, z3.ExprRef) else z3.IntVal(x)
def bv(x): return x if isinstance(x, z3.ExprRef) else z3.BoolVal(x)

class Obligation:
    __slots__ = ('label', 'kind', 'status', 'detail', 'time', 'backend', 'model', 'path', 'where', 'goal')
    def __init__(s, label, kind, status, detail='', time=0.0, backend='', model=None, path=(), where='', goal=None):
        s.label = label; s.kind = kind; s.status = status; s.detail = detail; s.time = time; s.backend = backend; s.model = model; s.path = path; s.where = where; s.goal = goal

class Config:
    def __init__(self, **k):
        self.solver_timeout = 10000
        self.feas_timeout = 2000
        self.max_paths = 4000
        self.max_unroll = 200
        self.deadline = None
        self.contracts = {}
        self.bounded = True
        self.loopspec = None
        self.safety = True
        self.__dict__.update(k)

# ---------------------------------------------------------------- VM
class VM:
    def __init__(self, prog, cfg=None):
        self.P = prog
        self.cfg = cfg or Config()
        self.obls = {}                 # key -> Obligation
        self.stats = {'paths': 0, 'solver_calls': 0, 'solver_time': 0.0, 'inlined': set(), 'contracts_used': set(), 'assumed': set()}
        self.fcount = 0
        self.nref = 0
        self.cover = {}
        self.prefix = []
        self.reset_path([])

    # -- path management
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.cfg.feas_timeout)
        self.frames = []
        self.depth = 0
        self.obn = 0
        self.names = {}
        self.nsym = []                 # (name, term) inputs in order
        self.globals = {}
        self.where = ''
        self.uid = 0
        self.loopstack = []
        self.abort_ok = False
        self.writes = []

    def explore(self, fn, tag=''):
        """run fn(vm) along every feasible path"""
        work = [[]]
        n = 0
        complete = True
        while work:
            pre = work.pop()
            if n >= self.cfg.max_paths or (self.cfg.deadline and time.time() > self.cfg.deadline):
                complete = False; break
            if self.nref >= getattr(self.cfg, 'max_refuted', 4): complete = False; break
            n += 1
            self.work = work
            self.tag = tag
            self.reset_path(pre)
            self.stats['paths'] += 1
            try:
                fn(self)
                self.on_path_end('ok')
            except PathEnd:
                self.on_path_end('cut')
            except ThrowEx:
                try: self.on_abort('exception'); self.on_path_end('abort')
                except PathEnd: self.on_path_end('cut')
            except ProgAbort:
                self.on_path_end('abort')
        return complete
    def on_path_end(self, how):
        st = self.stats
        if how == 'cut': st['cut'] = st.get('cut', 0) + 1; return
        if self.cover.get(self.tag, 0) < 3:
            if self.check(timeout=3000) == z3.sat:
                self.cover[self.tag] = self.cover.get(self.tag, 0) + 1

    def add(self, f):
        f = z3.simplify(f) if isinstance(f, z3.ExprRef) else bv(f)
        if z3.is_true(f): return
        self.pc.append(f); self.solver.add(f)
        if z3.is_false(f): raise PathEnd()

    def check(self, *extra, timeout=None):
        self.stats['solver_calls'] += 1
        t = time.time()
        s = self.solver
        s.push()
        for e in extra: s.add(e)
        if timeout: s.set('timeout', timeout)
        r = s.check()
        if timeout: s.set('timeout', self.cfg.feas_timeout)
        s.pop()
        self.stats['solver_time'] += time.time() - t
        return r

    def entails(self, f):
        """quick check pc |= f"""
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return self.check(z3.Not(f)) == z3.unsat

    def decide(self, c):
        """branch on a boolean"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t = self.check(c) != z3.unsat
            f = self.check(z3.Not(c)) != z3.unsat if t else True
            if t and f:
                self.work.append(self.dec + [False]); d = True
            elif t: d = True
            else:
                d = False
        self.dec.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice among n alternatives (all explored)"""
        k = len(self.dec)
        if k < len(self.prefix): d = self.prefix[k]
        else:
            d = 0
            for i in range(n - 1, 0, -1): self.work.append(self.dec + [i])
        self.dec.append(d)
        return d

    def fresh(self, name, sort):
        k = self.names.get(name, 0); self.names[name] = k + 1
        nm = name if k == 0 else '%s#%d' % (name, k)
        return z3.Const(nm, sort)

    # -- obligations
    def oblige(self, goal, label, kind='post'):
        self.obn += 1
        key = (self.tag, tuple(self.dec), self.obn)
        goal = bv(goal)
        if key in self.obls:
            self.assume_after(goal); return self.obls[key].status == 'proved'
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            o = Obligation(label, kind, 'proved', backend='simplifier', path=tuple(self.dec), where=self.where)
        else:
            st, backend, model, detail = self.prove(g)
            o = Obligation(label, kind, st, detail, time.time() - t0, backend, model, tuple(self.dec), self.where, str(g)[:400])
        self.obls[key] = o
        if o.status == 'refuted': self.nref += 1
        self.assume_after(goal)
        return o.status == 'proved'
    def assume_after(self, goal):
        if z3.is_quantifier(goal) or True:
            g = z3.simplify(goal)
            if z3.is_false(g): raise PathEnd()
            self.pc.append(g); self.solver.add(g)

    def prove(self, g):
        """pc |= g ?  -> (status, backend, model, detail)"""
        self.stats['solver_calls'] += 1
        t = time.time()
        try:
            if self.poly_prove(g): return 'proved', 'poly-span', None, ''
            r = self.check(z3.Not(g), timeout=min(3000, self.cfg.solver_timeout))
            if r == z3.unsat: return 'proved', 'z3', None, ''
            model = None
            s = z3.Solver(); s.set('timeout', self.cfg.solver_timeout)
            s.add(*self.pc); s.add(z3.Not(g))
            r = s.check()
            if r == z3.unsat: return 'proved', 'z3', None, ''
            if r == z3.sat:
                return 'refuted', 'z3', self.nice_model(s), 'counterexample found'
            st, be = self.prove_alt(g)
            if st: return st, be, None, ''
            return 'unknown', 'z3', None, s.reason_unknown()
        finally:
            self.stats['solver_time'] += time.time() - t
    def prove_alt(self, g):
        return None, ''

    def nice_model(self, s):
        """prefer small, round inputs; returns {name: Fraction} for named inputs"""
        def get(m):
            out = {}
            for nm, term, lo, hi in self.nsym:
                v = m.eval(term, model_completion=True)
                if z3.is_rational_value(v): out[nm] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_int_value(v): out[nm] = Fraction(v.as_long())
                elif z3.is_algebraic_value(v):
                    a = v.approx(20); out[nm] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            return out
        best = get(s.model())
        # soft: pull every input into its sampling range, most significant first
        try:
            s.set('timeout', 1500)
            s.push()
            t0 = time.time()
            for nm, term, lo, hi in self.nsym:
                if lo is None or time.time() - t0 > 6: continue
                s.push(); s.add(rv(term) >= rv(lo), rv(term) <= rv(hi))
                if s.check() == z3.sat: best = get(s.model())
                else: s.pop()
        except z3.Z3Exception: pass
        return best

    def poly_prove(self, g):
        """equalities that follow linearly (over monomials) from the equalities in pc"""
        if not z3.is_eq(g): return False
        a, b = g.children()
        if a.sort() != R: return False
        try:
            cv = Conv()
            goal = cv.poly(a) - cv.poly(b)
            if not goal.d: return True
            hyps = []
            for h in self.pc:
                hs = h.children() if z3.is_and(h) else [h]
                for x in hs:
                    if z3.is_eq(x) and x.children()[0].sort() == R:
                        try: hyps.append(cv.poly(x.children()[0]) - cv.poly(x.children()[1]))
                        except TooBig: pass
            # substitution pass: hypotheses of the form atom = poly(other atoms)
            sub = {}
            def apply(p, depth=0):
                out = Poly(); ch = False
                for m, c in p.d.items():
                    term = Poly({(): c})
                    for at, e in m:
                        if at in sub:
                            ch = True
                            for _ in range(e): term = term * sub[at]
                        else: term = term * Poly({((at, e),): Fraction(1)})
                    out = out + term
                return (apply(out, depth + 1) if ch and depth < 8 else out)
            rest = []
            for h in hyps:
                h = apply(h)
                lin = [m for m in h.d if len(m) == 1 and m[0][1] == 1 and not any(at == m[0][0] for mm in h.d if mm != m for at, _ in mm)]
                done = False
                if lin and len(h.d) <= 8:
                    m = lin[0]; c = h.d[m]; at = m[0][0]
                    p = Poly({k: -v / c for k, v in h.d.items() if k != m})
                    for k in list(sub): sub_k = sub[k]
                    sub[at] = p; done = True
                if not done and h.d: rest.append(h)
            goal = apply(goal); rest = [apply(h) for h in rest]
            side = []
            for q, n, d in cv.side:
                q = apply(q); n = apply(n); d = apply(d)
                side.append(q * d - n)
            if cv.side and not self.side_ok(cv): return False
            if not goal.d: return True
            if in_span(goal, rest + side): return True
            # clear denominators: multiply by each nonzero denominator power
            if cv.side:
                dens = []
                for q, n, d in cv.side:
                    dd = apply(d)
                    if dd.d and not any(dd.d == x.d for x in dens): dens.append(dd)
                G = goal
                for d in dens:
                    for _ in range(6):
                        G = G * d
                        # replace q*d by n greedily through span with multiplied hypotheses
                        H = rest + side
                        if in_span(G, H): return True
                return self.clear_denoms(goal, cv, apply, rest)
            return False
        except TooBig:
            return False
    def clear_denoms(self, goal, cv, apply, rest):
        """substitute q = n/d symbolically: goal polynomial in q's -> multiply by powers of d"""
        qs = []
        for q, n, d in cv.side:
            (m,), = [list(q.d.keys())]
            qs.append((m[0][0], n, d))
        hyps = rest
        G = goal
        for at, n, d in reversed(qs):
            def elim(p):
                deg = max([dict(m).get(at, 0) for m in p.d] or [0])
                if deg == 0: return p
                out = Poly()
                dp = [Poly.const(1)]
                for _ in range(deg): dp.append(dp[-1] * apply(d))
                np_ = [Poly.const(1)]
                for _ in range(deg): np_.append(np_[-1] * apply(n))
                for m, c in p.d.items():
                    dm = dict(m); k = dm.pop(at, 0)
                    out = out + Poly({tuple(sorted(dm.items())): c}) * np_[k] * dp[deg - k]
                return out
            G = elim(G); hyps = [elim(h) for h in hyps]
            if not G.d: return True
        return in_span(G, hyps)
    def side_ok(self, cv):
        for q, n, d in cv.side:
            # find the original division term to check its denominator is non-zero
            (m,), = [list(q.d.keys())]
            term = cv.terms[m[0][0]]
            den = term.children()[1]
            if not self.entails(den != 0): return False
        return True

    # -- types / default and symbolic values
    def tname(self, i): return self.P.T(i).get('name', '')
    def eig_dims(self, i):
        a = self.P.T(i)['args']
        return int(a[1]['i']), int(a[2]['i'])
    def undef(self, i, name='undef'): return self.symbolic(i, '!' + name)
    def symbolic(self, i, name):
        """arbitrary value of type i (uninitialised / input)"""
        i = self.P.strip(i)
        t = self.P.T(i); k = t['k']
        if k == 'builtin':
            if t.get('int'):
                v = self.fresh(name, I); lo, hi = self.irange(t); self.add(z3.And(v >= lo, v <= hi)); return v
            if t['name'] == 'bool': return self.fresh(name, B)
            if t['name'] in ('double', 'float', 'long double'): return self.fresh(name, R)
            if t['name'] == 'void': return None
        if k == 'enum': return self.fresh(name, I)
        if k == 'ptr': return Ptr(None)
        if k == 'carray': return Arr([self.symbolic(t['to'], name + '_%d' % j) for j in range(t['n'])])
        if k == 'rec':
            n = t['name']
            if n == 'std::array':
                return Arr([self.symbolic(t['args'][0]['t'], '%s_%d' % (name, j)) for j in range(int(t['args'][1]['i']))])
            if n == 'Eigen::Matrix':
                r, c = self.eig_dims(i)
                if r >= 0 and c >= 0: return Mat(r, c, [self.fresh('%s_%d_%d' % (name, a, b), R) for a in range(r) for b in range(c)])
                return Mat(0 if r < 0 else r, 0 if c < 0 else c, [])
            d = self.default_lib(i)
            if d is not None: return d
            fs = self.P.fields(i)
            if fs is not None:
                return Rec(i, {f['name']: self.symbolic(f['type'], name + '.' + f['name']) for f in fs})
        return Opaque(t['s'])
    def default_lib(self, i):
        t = self.P.T(i); n = t.get('name', '')
        if n == 'std::vector': return CVec([], t['args'][0]['t'])
        if n == 'std::map': return CMap([], t['args'][0]['t'], t['args'][1]['t'])
        if n in ('boost::unordered::unordered_map', 'std::unordered_map', 'boost::unordered_map'): return CUMap([], t['args'][0]['t'], t['args'][1]['t'])
        if n == 'std::pair': return Pair(self.zero(t['args'][0]['t']), self.zero(t['args'][1]['t']))
        if n.startswith('std::_Rb_tree') or 'iterator' in n or n.startswith('boost::unordered::iterator_detail'): return MIter(None, None)
        if n in ('std::basic_string', 'std::__cxx11::basic_string'): return z3.Const('emptystr', Str)
        return None
    def zero(self, i):
        i = self.P.strip(i)
        t = self.P.T(i); k = t['k']
        if k == 'builtin':
            if t.get('int'): return z3.IntVal(0)
            if t['name'] == 'bool': return z3.BoolVal(False)
            if t['name'] in ('double', 'float', 'long double'): return z3.RealVal(0)
        if k == 'enum': return z3.IntVal(0)
        if k == 'ptr': return Ptr(None)
        if k == 'carray': return Arr([self.zero(t['to'])] * t['n'])
        if k == 'rec':
            n = t['name']
            if n == 'std::array': return Arr([self.zero(t['args'][0]['t'])] * int(t['args'][1]['i']))
            d = self.default_lib(i)
            if d is not None: return d
            if n == 'Eigen::Matrix': return self.symbolic(i, '!uninit')
            fs = self.P.fields(i)
            if fs is not None: return Rec(i, {f['name']: self.zero(f['type']) for f in fs})
        return Opaque(t['s'])

    # -- ints
    def irange(self, t):
        b = t['bits']
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['signed'] else (0, (1 << b) - 1)
    def fit(self, v, i, what='', signed_ub=False):
        """bring mathematical integer v into type i (wrap)"""
        t = self.P.T(self.P.strip(i))
        if not t.get('int'): return v
        lo, hi = self.irange(t)
        c = cint(v)
        if c is not None:
            if lo <= c <= hi: return z3.IntVal(c)
            if signed_ub and t['signed']: self.oblige(False, 'signed overflow ' + what, 'safety')
            m = 1 << t['bits']; c = c % m
            return z3.IntVal(c - m if c > hi else c)
        v = z3.simplify(v)
        if self.entails(z3.And(v >= lo, v <= hi)): return v
        if signed_ub and t['signed']:
            self.oblige(z3.And(v >= lo, v <= hi), 'no signed overflow ' + what, 'safety'); return v
        m = 1 << t['bits']
        if not t['signed']: return v % m
        w = v % m
        return z3.If(w > hi, w - m, w)

    # -- select / update of immutable values
    def select(self, v, sel):
        k = sel[0]
        if k == 'f':
            if isinstance(v, Rec): return v.f[sel[1]]
            if isinstance(v, Pair): return v.a if sel[1] == 'first' else v.b
        if k == 'i':
            return self.elem(v, sel[1])
        if k == 'e':
            return self.mat_get(v, sel[1], sel[2])
        if k == 'n':
            for u, key, val in v.items:
                if u == sel[1]: return key if sel[2] == 'first' else val
            self.oblige(False, 'dereference of an erased map node', 'safety'); raise PathEnd()
        raise Unsupported('select %s of %s' % (sel, type(v).__name__))
    def update(self, v, sel, x):
        k = sel[0]
        if k == 'f':
            if isinstance(v, Rec): return v.set(sel[1], x)
            if isinstance(v, Pair): return Pair(x, v.b) if sel[1] == 'first' else Pair(v.a, x)
        if k == 'i': return self.setelem(v, sel[1], x)
        if k == 'e': return self.mat_set(v, sel[1], sel[2], x)
        if k == 'n':
            return type(v)([(u, kk, x) if u == sel[1] else (u, kk, vv) for u, kk, vv in v.items], v.kt, v.vt)
        raise Unsupported('update %s of %s' % (sel, type(v).__name__))
    def elem(self, v, i):
        if isinstance(v, (Arr, CVec)):
            c = cint(i)
            if c is not None: return v.e[c]
            return self.ite_chain(v.e, i)
        if isinstance(v, Mat):
            return self.mat_get(v, i, 0) if v.c == 1 else self.mat_get(v, 0, i)
        raise Unsupported('index of ' + type(v).__name__)
    def ite_chain(self, es, i):
        if all(isinstance(x, z3.ExprRef) for x in es):
            r = es[-1]
            for k in range(len(es) - 2, -1, -1): r = z3.If(i == k, es[k], r)
            return r
        for k in range(len(es)):
            if k == len(es) - 1 or self.decide(i == k): return es[k]
    def setelem(self, v, i, x):
        c = cint(i)
        if isinstance(v, (Arr, CVec)):
            if c is None:
                for k in range(len(v.e)):
                    if k == len(v.e) - 1 or self.decide(i == k): c = k; break
            e = list(v.e); e[c] = x
            return Arr(e) if isinstance(v, Arr) else CVec(e, v.et)
        if isinstance(v, Mat):
            return self.mat_set(v, i, 0, x) if v.c == 1 else self.mat_set(v, 0, i, x)
        raise Unsupported('index store')
    def length(self, v):
        if isinstance(v, (Arr, CVec)): return z3.IntVal(len(v.e))
        raise Unsupported('length of ' + type(v).__name__)
    def bounds(self, v, i, what):
        n = self.length(v)
        if not self.oblige(z3.And(i >= 0, i < n), 'index in range: ' + what, 'safety'): pass
    def mat_get(self, m, i, j):
        if isinstance(m, Mat):
            a, b = cint(i), cint(j)
            if a is not None and b is not None: return m.at(a, b)
            return self.ite_chain(m.e, iv(i) * m.c + iv(j))
        raise Unsupported('matrix access')
    def mat_set(self, m, i, j, x):
        if isinstance(m, Mat):
            a, b = cint(i), cint(j)
            if a is None or b is None:
                idx = iv(i) * m.c + iv(j)
                for k in range(len(m.e)):
                    if k == len(m.e) - 1 or self.decide(idx == k): a, b = divmod(k, m.c); break
            e = list(m.e); e[a * m.c + b] = x
            return Mat(m.r, m.c, e)
        raise Unsupported('matrix store')

    # -- statements
    def block(self, s):
        for x in s['b']: self.stmt(x)
    def stmt(self, s):
        if s is None: return
        k = s['k']
        if k == 'expr': self.ev(s['e'])
        elif k == 'block': self.block(s)
        elif k == 'decl':
            for d in s['d']: self.decl(d)
        elif k == 'if':
            if 'init' in s: self.stmt(s['init'])
            if 'cv' in s: self.decl(s['cv'])
            if self.decide(self.truth(s['c'])): self.stmt(s['t'])
            elif s['e'] is not None: self.stmt(s['e'])
        elif k == 'return':
            fr = self.frames[-1]
            if s['e'] is None: raise ReturnEx(None)
            raise ReturnEx(self.convert_ret(s['e'], fr['ret']))
        elif k in ('for', 'while', 'do', 'range'): self.loop(s)
        elif k == 'break': raise BreakEx()
        elif k == 'continue': raise ContinueEx()
        elif k == 'switch': self.switch(s)
        elif k in ('case', 'default'): self.stmt(s['s'])
        elif k == 'try':
            try: self.stmt(s['b'])
            except ThrowEx: raise Unsupported('exception caught by the program')
        else: raise Unsupported('statement ' + s.get('what', k))
    def convert_ret(self, e, rt):
        t = self.P.T(rt)
        v = self.ev(e)
        if t['k'] in ('ref', 'rref'): return v if isinstance(v, LV) else Root(v)
        return self.rval(v)
    def decl(self, d):
        t = self.P.T(d['type'])
        if d.get('static'):
            if d['id'] not in self.globals:
                self.globals[d['id']] = Root(self.init_value(d, d['type']), d['name'], d['type'])
            self.frames[-1]['v'][d['id']] = self.globals[d['id']]
            return
        if t['k'] in ('ref', 'rref'):
            v = self.ev(d['init'])
            self.frames[-1]['v'][d['id']] = v if isinstance(v, LV) else Root(v, d['name'], self.P.strip(d['type']))
            return
        if self.is_view_type(d['type']) and 'init' in d:
            v = self.ev(d['init'])
            if isinstance(v, EView): self.frames[-1]['v'][d['id']] = v; return
            root = Root(self.rval(v), d['name'], self.P.strip(d['type'])); self.frames[-1]['v'][d['id']] = root; return
        root = Root(None, d['name'], self.P.strip(d['type']))
        root.v = self.init_value(d, d['type'])
        self.frames[-1]['v'][d['id']] = root
        self.note_new(root)
    def is_view_type(self, ty):
        n = self.P.T(self.P.strip(ty)).get('name', '')
        return n.startswith('Eigen::') and n not in ('Eigen::Matrix', 'Eigen::Array')
    def note_new(self, root): pass
    def init_value(self, d, ty):
        if 'init' not in d: return self.undef(ty, d['name'])
        return self.rval(self.ev(d['init']), ty)
    def rval(self, v, ty=None):
        if isinstance(v, LV): v = v.load()
        if isinstance(v, Lazy): v = self.force(v)
        return v
    def truth(self, e):
        v = self.rval(self.ev(e))
        if isinstance(v, Ptr): return bv(v.lv is not None)
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, z3.ArithRef): return v != 0
        raise Unsupported('truth of ' + type(v).__name__)
    def switch(self, s):
        c = self.rval(self.ev(s['c']))
        body = s['b']['b']
        start = None; dflt = None
        flat = []
        def push(x):
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('L', x)); x = x['s']
            flat.append(('S', x))
        for x in body: push(x)
        for i, (k, x) in enumerate(flat):
            if k == 'L':
                if x['k'] == 'default': dflt = i; continue
                if self.decide(iv(c) == iv(self.rval(self.ev(x['v'])))): start = i; break
        if start is None: start = dflt
        if start is None: return
        try:
            for k, x in flat[start:]:
                if k == 'S': self.stmt(x)
        except BreakEx: pass

    def loop(self, s):
        """unroll while the condition is decided; symbolic loops are overridden in ded.py"""
        k = s['k']
        n = 0
        if k == 'for' and s['init'] is not None: self.stmt(s['init'])
        if k == 'range':
            self.stmt(s['range']); self.stmt(s['begin']); self.stmt(s['end'])
        first = True
        if self.symbolic_loop(s): return
        while True:
            if not (k == 'do' and first):
                if s['c'] is not None and not self.decide(self.truth(s['c'])): break
            first = False
            n += 1
            if n > self.cfg.max_unroll: raise Unsupported('loop bound exceeded')
            try:
                if k == 'range': self.stmt(s['var'])
                self.stmt(s['b'])
            except BreakEx: break
            except ContinueEx: pass
            if k in ('for', 'range') and s['inc'] is not None: self.ev(s['inc'])
    def symbolic_loop(self, s): return False

    # -- functions
    def call_user(self, fid, this, args):
        f = self.P.funcs[fid]; r = self.P.refs[fid]
        if self.depth > 60: raise Unsupported('recursion too deep in ' + r['name'])
        self.stats['inlined'].add(r['name'])
        fr = {'v': {}, 'this': this, 'ret': r['ret'], 'name': r['name'], 'f': fid}
        for p, a in zip(f['params'], args):
            t = self.P.T(p['type'])
            if t['k'] in ('ref', 'rref'):
                fr['v'][p['id']] = a if isinstance(a, LV) else Root(a, p['name'], self.P.strip(p['type']))
            elif isinstance(a, EView) and self.is_view_type(p['type']):
                fr['v'][p['id']] = a
            else:
                fr['v'][p['id']] = Root(self.rval(a), p['name'], self.P.strip(p['type']))
                self.note_new(fr['v'][p['id']])
        self.frames.append(fr); self.depth += 1
        ow = self.where; self.where = r['name']
        try:
            if r.get('ctor'): self.run_inits(fid, f, this)
            self.stmt(f['body'])
            res = None
        except ReturnEx as x:
            res = x.v
        finally:
            self.frames.pop(); self.depth -= 1; self.where = ow
        return res
    def run_inits(self, fid, f, this):
        for i in f.get('inits', []):
            if 'member' in i:
                ft = None
                v = self.ev(i['init'])
                fld = Sub(self, this, ('f', i['member']))
                fld.store(self.rval(v))
            elif 'base' in i:
                v = self.rval(self.ev(i['init']))
                if isinstance(v, Rec):
                    cur = this.load(); d = dict(cur.f); d.update(v.f); this.store(Rec(cur.t, d))
            else:
                v = self.rval(self.ev(i['init'])); this.store(Rec(this.load().t, dict(v.f)))
    def construct_rec(self, ty, fid, args):
        ty = self.P.strip(ty)
        r = self.P.refs[fid]
        if (r.get('copy') or r.get('move')) and (fid not in self.P.funcs or self.P.funcs[fid].get('defaulted') or r.get('defaulted') or r.get('implicit')):
            return self.rval(args[0])
        root = Root(None, 'tmp', ty)
        root.v = self.uninit_rec(ty)
        if fid in self.P.funcs:
            self.call_user(fid, root, args)
        elif r.get('default'):
            root.v = self.default_construct(ty)
        else: raise Unsupported('constructor ' + r['name'])
        return root.load()
    def uninit_rec(self, ty):
        fs = self.P.fields(ty)
        out = {}
        for f in fs:
            out[f['name']] = self.default_construct(f['type'], uninit=True)
        return Rec(ty, out)
    def default_construct(self, ty, uninit=False):
        """T x; semantics"""
        ty = self.P.strip(ty); t = self.P.T(ty)
        if t['k'] == 'rec':
            d = self.default_lib(ty)
            if d is not None: return d
            if t['name'] in ('Eigen::Matrix', 'std::array'): return self.undef(ty)
            rec = self.P.rec_of(ty)
            if rec is not None:
                for m in rec['methods']:
                    r = self.P.refs[m]
                    if r.get('ctor') and not r['ptypes'] and m in self.P.funcs and not self.P.funcs[m].get('defaulted'):
                        root = Root(self.uninit_rec(ty), 'tmp', ty); self.call_user(m, root, []); return root.load()
                out = {}
                for f in self.P.fields(ty):
                    out[f['name']] = self.rval(self.ev(f['init'])) if f.get('init') else self.default_construct(f['type'])
                return Rec(ty, out)
            return Opaque(t['s'])
        return self.undef(ty)

    # -- expressions
    def ev(self, e):
        return getattr(self, 'x_' + e['k'])(e)
    def x_unsup(self, e): raise Unsupported('expression ' + e['what'])
    def x_int(self, e):
        t = self.P.T(e['t'])
        if t.get('name') == 'bool': return z3.BoolVal(e['v'] != '0')
        return z3.IntVal(int(e['v']))
    def x_bool(self, e): return z3.BoolVal(e['v'] not in ('0', 'false'))
    def x_float(self, e):
        if e['v'] in ('nan', 'inf', '-inf'): return z3.Const('fp_' + e['v'], R)
        return z3.RealVal(Fraction(float.fromhex(e['v'])))
    def x_str(self, e): return Opaque('str:' + e['v'])
    def x_null(self, e): return Ptr(None)
    def x_this(self, e): return Ptr(self.frames[-1]['this'])
    def x_var(self, e):
        i = e['id']
        for fr in (self.frames[-1],):
            if i in fr['v']: return fr['v'][i]
        c = self.frames[-1].get('caps')
        if c and i in c: return c[i]
        if i in self.globals: return self.globals[i]
        if i in self.P.vars:
            v = self.P.vars[i]
            self.globals[i] = Root(self.rval(self.ev(v['init'])) if 'init' in v else self.zero(v['type']) if not v['local'] else self.default_construct(v['type']), v['name'], self.P.strip(v['type']))
            return self.globals[i]
        # variable of an enclosing frame (lambda body)
        for fr in reversed(self.frames):
            if i in fr['v']: return fr['v'][i]
        raise Unsupported('variable ' + e['name'])
    def x_fnref(self, e): return Opaque(('fn', e['f']))
    def lval(self, v): return v if isinstance(v, LV) else Root(v, 'tmp')
    def deref(self, p):
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige(False, 'null pointer dereference', 'safety'); raise PathEnd()
            if p.idx is not None:
                if isinstance(p.lv, EView): return self.view_elem(p.lv, p.idx)
                v = p.lv.load()
                self.bounds(v, p.idx, 'pointer access')
                return Sub(self, p.lv, ('i', self.conc(p.idx)))
            return p.lv
        return self.deref_iter(p)
    def conc(self, i):
        c = cint(i); return c if c is not None else z3.simplify(i)
    def view_elem(self, view, idx):
        c = cint(idx)
        if c is None: raise Unsupported('symbolic index into view')
        i, j = (c, 0) if view.c == 1 else (0, c)
        return EView(1, 1, lambda a, b: view.get(i, j), lambda a, b, x: view.set(i, j, x), view.base)
    def deref_iter(self, p):
        if isinstance(p, VIter):
            if p.lv is None: self.oblige(False, 'singular iterator dereference', 'safety'); raise PathEnd()
            i = p.i - 1 if p.rev else p.i
            v = p.lv.load()
            self.bounds(v, iv(i), 'iterator dereference')
            return Sub(self, p.lv, ('i', self.conc(iv(i))))
        if isinstance(p, MIter):
            return self.miter_node(p)
        raise Unsupported('dereference of ' + type(p).__name__)
    def miter_node(self, p):
        if p.rev: p = self.m_prev(p)
        if p.lv is None or p.uid is None:
            self.oblige(False, 'dereference of end or singular map iterator', 'safety'); raise PathEnd()
        m = p.lv.load()
        if not any(u == p.uid for u, _, _ in m.items):
            self.oblige(False, 'dereference of an invalidated map iterator', 'safety'); raise PathEnd()
        return MapNode(self, p.lv, p.uid)
    def m_prev(self, p):
        m = p.lv.load()
        us = [u for u, _, _ in m.items]
        k = len(us) if p.uid is None else (us.index(p.uid) if p.uid in us else -1)
        if k <= 0:
            self.oblige(False, 'decrement of begin iterator', 'safety'); raise PathEnd()
        return MIter(p.lv, us[k - 1])
    def m_next(self, p):
        m = p.lv.load()
        us = [u for u, _, _ in m.items]
        if p.uid is None or p.uid not in us:
            self.oblige(False, 'increment of end or invalid map iterator', 'safety'); raise PathEnd()
        k = us.index(p.uid) + 1
        return MIter(p.lv, us[k] if k < len(us) else None)

    def x_member(self, e):
        b = self.ev(e['b'])
        if e['arrow']: b = self.deref(self.rval(b))
        if isinstance(b, LV):
            if isinstance(b, MapNode): return b.field(e['m'])
            return Sub(self, b, ('f', e['m']))
        return self.select(b, ('f', e['m']))
    def x_index(self, e):
        a = self.rval(self.ev(e['a'])); i = self.rval(self.ev(e['b']))
        if isinstance(a, Ptr): return self.deref(Ptr(a.lv, i if a.idx is None else a.idx + i))
        raise Unsupported('subscript')
    def x_cond(self, e):
        c = z3.simplify(self.truth(e['c']))
        if not (z3.is_true(c) or z3.is_false(c)) and self.pure(e['a']) and self.pure(e['b']) and self.P.T(self.P.strip(e['t']))['k'] == 'builtin' and self.tname(self.P.strip(e['t'])) != 'void':
            a, b = self.rval(self.ev(e['a'])), self.rval(self.ev(e['b']))
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                r = z3.If(c, a, b)
                return Root(r) if e.get('lv') else r
        return self.ev(e['a']) if self.decide(c) else self.ev(e['b'])
    def pure(self, e):
        """syntactically side-effect and obligation free"""
        k = e['k']
        if k in ('int', 'bool', 'float', 'var'): return True
        if k == 'member': return not e['arrow'] and self.pure(e['b']) or e['b']['k'] == 'this'
        if k == 'cast': return e['ck'] in ('LValueToRValue', 'IntegralToFloating', 'FloatingCast') and self.pure(e['e'])
        if k == 'bin': return e['op'] in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=') and self.P.T(e['a']['t']).get('name') == 'double' and self.pure(e['a']) and self.pure(e['b'])
        if k == 'un': return e['op'] in ('-', '!') and self.pure(e['e'])
        return False
    def x_cast(self, e):
        ck = e['ck']
        v = self.ev(e['e'])
        if ck == 'LValueToRValue': return self.rval(v)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'BitCast', 'FunctionToPointerDecay', 'Dependent', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic', 'NonAtomicToAtomic'): return v
        if ck == 'ToVoid': return None
        if ck == 'NullToPointer': return Ptr(None)
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, Opaque): return v
            return Ptr(self.lval(v), z3.IntVal(0))
        v = self.rval(v)
        if ck == 'IntegralCast':
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.fit(v, e['t'], 'cast')
        if ck == 'IntegralToFloating':
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            c = cint(v)
            return z3.RealVal(c) if c is not None else z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            w = z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
            return self.fit(w, e['t'], 'float to int')
        if ck == 'FloatingCast':
            if self.tname(self.P.strip(e['t'])) == 'float':
                if z3.is_rational_value(v):
                    import struct
                    x = float(v.as_fraction()); return z3.RealVal(Fraction(struct.unpack('f', struct.pack('f', x))[0]))
                return z3.Function('round_to_float', R, R)(v)
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return v if isinstance(v, z3.BoolRef) else z3.simplify(v != 0)
        if ck == 'PointerToBoolean': return bv(v.lv is not None)
        raise Unsupported('cast ' + ck)
    def x_zeroinit(self, e): return self.zero(e['t'])
    def x_initlist(self, e):
        ty = self.P.strip(e['t']); t = self.P.T(ty)
        a = e['args']
        if t['k'] == 'carray':
            vs = [self.rval(self.ev(x)) for x in a]
            while len(vs) < t['n']: vs.append(self.rval(self.ev(e['filler'])) if 'filler' in e else self.zero(t['to']))
            return Arr(vs)
        if t['k'] == 'rec':
            if t['name'] == 'std::array':
                v = self.rval(self.ev(a[0])) if a else self.zero(ty)
                n = int(t['args'][1]['i'])
                if isinstance(v, Arr): return v
                raise Unsupported('array init')
            fs = self.P.fields(ty)
            if fs is not None:
                d = {}
                for i, f in enumerate(fs): d[f['name']] = self.rval(self.ev(a[i])) if i < len(a) else self.zero(f['type'])
                return Rec(ty, d)
        if len(a) == 1: return self.rval(self.ev(a[0]))
        if not a: return self.zero(ty)
        raise Unsupported('initializer list')
    def x_initlist_std(self, e):
        v = self.rval(self.ev(e['e']))
        return v      # Arr
    def x_throw(self, e): raise ThrowEx('throw')
    def x_lambda(self, e):
        caps = {}
        for c in e['caps']:
            if c.get('this'): continue
            v = self.ev(c['init'])
            caps[c['id']] = self.lval(v) if c['ref'] else Root(self.rval(v))
        return Lam(e.get('f'), caps, self.frames[-1]['this'])
    def x_un(self, e):
        op = e['op']
        if op == '&': return self.addr(self.ev(e['e']))
        if op == '*': return self.deref(self.rval(self.ev(e['e'])))
        if op in ('++', '--'):
            lv = self.ev(e['e']); old = lv.load(); d = 1 if op == '++' else -1
            if isinstance(old, Ptr): new = Ptr(old.lv, (old.idx if old.idx is not None else z3.IntVal(0)) + d)
            elif isinstance(old, z3.ArithRef) and old.sort() == I: new = self.fit(z3.simplify(old + d), e['t'], op, True)
            else: new = old + d
            lv.store(new)
            return old if e.get('post') else lv
        v = self.rval(self.ev(e['e']))
        if op == '-':
            if v.sort() == I: return self.fit(z3.simplify(-v), e['t'], '-', True)
            return z3.simplify(-v) if is_num(v) else -v
        if op == '+': return v
        if op == '!':
            if isinstance(v, Ptr): return bv(v.lv is None)
            return z3.simplify(z3.Not(v if isinstance(v, z3.BoolRef) else v != 0))
        if op == '~': raise Unsupported('~')
        raise Unsupported('unary ' + op)
    def addr(self, v):
        if isinstance(v, Sub) and v.sel[0] == 'i': return Ptr(v.p, iv(v.sel[1]))
        if isinstance(v, LV): return Ptr(v)
        return Ptr(Root(v))
    def x_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        if op == '=':
            lv = self.ev(e['a']); v = self.rval(self.ev(e['b'])); lv.store(v); return lv
        if op in ('&&', '||'):
            a = z3.simplify(self.truth(e['a']))
            if z3.is_true(a) or z3.is_false(a):
                if z3.is_true(a) == (op == '||'): return a
                return self.truth(e['b'])
            if self.pure(e['b']):
                b = self.truth(e['b'])
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            d = self.decide(a)
            if op == '&&': return self.truth(e['b']) if d else z3.BoolVal(False)
            return z3.BoolVal(True) if d else self.truth(e['b'])
        a = self.rval(self.ev(e['a'])); b = self.rval(self.ev(e['b']))
        return self.binop(op, a, b, e['t'])
    def binop(self, op, a, b, ty):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptrop(op, a, b)
        if isinstance(a, (VIter, MIter)) : return self.iterop(op, a, b)
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef) and op in ('==', '!=', '&', '|', '^'):
            r = {'==': a == b, '!=': a != b, '&': z3.And(a, b), '|': z3.Or(a, b), '^': z3.Xor(a, b)}[op]
            return z3.simplify(r)
        if isinstance(a, z3.BoolRef): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if not (isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef)): raise Unsupported('operator %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        if a.sort() != b.sort(): a, b = rv(a), rv(b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            r = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
            return z3.simplify(r)
        isint = a.sort() == I
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*': r = a * b
        elif op == '/':
            if isint:
                self.oblige(b != 0, 'division by zero', 'safety')
                ca, cb = cint(a), cint(b)
                if ca is not None and cb: q = abs(ca) // abs(cb); r = z3.IntVal(q if (ca < 0) == (cb < 0) else -q)
                elif self.entails(z3.And(a >= 0, b > 0)): r = a / b
                else: r = z3.If(z3.Or(z3.And(a >= 0, b > 0)), a / b, z3.If(z3.And(a < 0, b > 0), -((-a) / b), z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))
            else: r = a / b
        elif op == '%':
            self.oblige(b != 0, 'modulo by zero', 'safety')
            ca, cb = cint(a), cint(b)
            if ca is not None and cb: r = z3.IntVal(abs(ca) % abs(cb) * (1 if ca >= 0 else -1))
            elif self.entails(z3.And(a >= 0, b > 0)): r = a % b
            else: raise Unsupported('signed %')
        elif op in ('<<', '>>', '&', '|', '^'):
            ca, cb = cint(a), cint(b)
            if ca is None or cb is None:
                if op == '<<' and cb is not None: r = a * (1 << cb)
                elif op == '>>' and cb is not None and self.entails(a >= 0): r = a / (1 << cb)
                else: raise Unsupported('bit operator ' + op)
            else: r = z3.IntVal({'<<': ca << cb, '>>': ca >> cb, '&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
        else: raise Unsupported('operator ' + op)
        if isint: return self.fit(z3.simplify(r), ty, op, True)
        if is_num(a) and is_num(b): r = z3.simplify(r)
        return r
    def ptrop(self, op, a, b):
        if op in ('==', '!='):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.idx is not None and b.idx is not None and a.lv is not None and b.lv is not None:
                    r = iv(a.idx) == iv(b.idx) if self.same_lv(a.lv, b.lv) else z3.BoolVal(False)
                elif (a.lv is None) != (b.lv is None): r = z3.BoolVal(False)
                else: r = z3.BoolVal(a.lv is None or self.same_lv(a.lv, b.lv))
                return z3.simplify(r if op == '==' else z3.Not(r))
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, z3.ArithRef):
            i = a.idx if a.idx is not None else z3.IntVal(0)
            return Ptr(a.lv, z3.simplify(i + b if op == '+' else i - b))
        if op == '-' and isinstance(b, Ptr): return z3.simplify(iv(a.idx) - iv(b.idx))
        if op in ('<', '<=', '>', '>='): return self.binop(op, iv(a.idx), iv(b.idx), None)
        raise Unsupported('pointer operator ' + op)
    def same_lv(self, a, b):
        if a is b: return True
        if isinstance(a, EView) or isinstance(b, EView): return False
        ra, pa = a.root(); rb, pb = b.root()
        return ra is rb and len(pa) == len(pb) and all(self.same_sel(x, y) for x, y in zip(pa, pb))
    def same_sel(self, x, y):
        if x[0] != y[0]: return False
        for a, b in zip(x[1:], y[1:]):
            if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
                ca, cb = cint(a), cint(b)
                if ca is not None and cb is not None:
                    if ca != cb: return False
                    continue
                if not self.decide(iv(a) == iv(b)): return False
            elif a != b: return False
        return True
    def iterop(self, op, a, b):
        if isinstance(a, VIter) and isinstance(b, VIter):
            x, y = iv(a.i), iv(b.i)
            if a.rev: x, y = y, x
            if op == '-': return z3.simplify(x - y)
            r = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
            return z3.simplify(r)
        if isinstance(a, MIter) and isinstance(b, MIter):
            r = a.uid == b.uid
            return z3.BoolVal(r if op == '==' else not r)
        raise Unsupported('iterator operator ' + op)
    def x_cassign(self, e):
        lv = self.ev(e['a']); b = self.rval(self.ev(e['b'])); a = lv.load()
        op = e['op'][:-1]
        lt = self.P.T(self.P.strip(e['a']['t']))
        if isinstance(a, Ptr): lv.store(self.ptrop(op, a, b)); return lv
        if isinstance(a, z3.BoolRef):
            if isinstance(b, z3.ArithRef): b = b != 0
            lv.store(self.binop(op, a, b, e['t'])); return lv
        ct = self.P.T(self.P.strip(e['ct']))
        if a.sort() == I and not ct.get('int'): a = rv(a)
        v = self.binop(op, a, b, e['ct'])
        if lt.get('int'):
            if v.sort() == R:
                v = z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
            v = self.fit(v, e['a']['t'], op)
        lv.store(v)
        return lv
    def x_method(self, e): raise Unsupported('bound method')

    # -- calls
    def x_call(self, e):
        if 'f' not in e:
            f = self.rval(self.ev(e['fe']))
            if isinstance(f, Opaque) and isinstance(f.what, tuple): return self.dispatch(f.what[1], None, [self.ev(a) for a in e['args']], e)
            if isinstance(f, Lam): return self.call_lambda(f, [self.ev(a) for a in e['args']])
            raise Unsupported('indirect call')
        r = self.P.refs[e['f']]
        obj = None
        if 'obj' in e:
            o = self.ev(e['obj'])
            if e.get('arrow'): o = self.deref(self.rval(o))
            obj = o
        args = e['args']
        special = self.lazy_call(e, r, obj)
        if special is not NotImplemented: return special
        # strict evaluation
        vals = [self.ev(a) for a in args]
        return self.dispatch(e['f'], obj, vals, e)
    def lazy_call(self, e, r, obj): return NotImplemented
    def call_lambda(self, lam, args):
        f = self.P.funcs[lam.f]; r = self.P.refs[lam.f]
        fr_caps = lam.caps
        fr = {'v': dict(fr_caps), 'this': lam.this, 'ret': r['ret'], 'name': r['name'], 'f': lam.f, 'caps': fr_caps}
        for p, a in zip(f['params'], args):
            t = self.P.T(p['type'])
            fr['v'][p['id']] = (self.lval(a) if t['k'] in ('ref', 'rref') else Root(self.rval(a), p['name'], self.P.strip(p['type'])))
        self.frames.append(fr); self.depth += 1
        try:
            self.stmt(f['body']); return None
        except ReturnEx as x: return x.v
        finally: self.frames.pop(); self.depth -= 1
    def dispatch(self, fid, obj, vals, e):
        r = self.P.refs[fid]
        name = r['name']
        cls = self.P.T(r['cls'])['name'] if 'cls' in r else ''
        if r.get('virtual') and obj is not None and not (e or {}).get('qual'):
            fid = self.resolve_virtual(fid, obj); r = self.P.refs[fid]; name = r['name']
        if isinstance(obj, LV) and not isinstance(obj, EView):
            pass
        v = obj.load() if isinstance(obj, LV) and not isinstance(obj, EView) and cls == '' else obj
        if (r.get('op') == '()' or r['short'] == 'operator()') and obj is not None:
            lam = self.rval(obj)
            if isinstance(lam, Lam): return self.call_lambda(lam, vals)
        m = self.model(fid, r, name, cls, obj, vals, e)
        if m is not NotImplemented: return m
        c = self.contract_for(fid, r)
        if c is not None: return self.apply_contract(c, fid, r, obj, vals)
        if r.get('defaulted') or r.get('implicit'):
            if r.get('copyassign') or r.get('moveassign'):
                obj.store(self.rval(vals[0])); return obj
            if r.get('dtor'): return None
        if fid in self.P.funcs:
            this = None
            if 'cls' in r and not r.get('static'): this = self.lval(obj)
            return self.call_user(fid, this, vals)
        raise Unsupported('call to ' + name)
    def contract_for(self, fid, r): return None
    def resolve_virtual(self, fid, obj):
        v = self.rval(obj)
        if not isinstance(v, Rec): return fid
        seen = {fid}
        def search(ty):
            rec = self.P.rec_of(ty)
            if rec is None: return None
            for m in rec['methods']:
                if m == fid: return m
                ov = list(self.P.refs[m].get('overrides', []))
                st = set()
                while ov:
                    o = ov.pop()
                    if o == fid: return m
                    if o in st: continue
                    st.add(o)
                    ov += self.P.refs.get(o, {}).get('overrides', [])
            for b in rec['bases']:
                x = search(b)
                if x is not None: return x
            return None
        x = search(v.t)
        return x if x is not None else fid
    def x_construct(self, e):
        r = self.P.refs[e['f']]
        ty = self.P.strip(e['t'])
        vals = [self.ev(a) for a in e['args']]
        m = self.model_ctor(ty, e['f'], r, vals, e)
        if m is not NotImplemented: return m
        if self.P.rec_of(ty) is not None:
            if e.get('zero') and not vals and e['f'] not in self.P.funcs: return self.zero(ty)
            c = self.contract_for(e['f'], r)
            if c is not None:
                root = Root(self.uninit_rec(ty), 'tmp', ty)
                self.apply_contract(c, e['f'], r, root, vals)
                return root.load()
            return self.construct_rec(ty, e['f'], vals)
        raise Unsupported('constructor of ' + self.P.T(ty)['s'])
    def model(self, *a): return NotImplemented
    def model_ctor(self, *a): return NotImplemented
    def force(self, lazy): raise Unsupported('solve')

class MapNode(LV):
    """value_type& of a map node"""
    def __init__(s, vm, lv, uid): s.vm = vm; s.lv = lv; s.uid = uid
    def field(s, m): return Sub(s.vm, s.lv, ('n', s.uid, m))
    def load(s): return Pair(s.field('first').load(), s.field('second').load())
    def store(s, v): raise Unsupported('store to map node')
    def root(s):
        r, p = s.lv.root(); return r, p + (('n', s.uid, ''),)
