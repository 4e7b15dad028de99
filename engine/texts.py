"""Text of any size: a line is a list of comma-free fields (F[0..m]; m commas), a file is a list of
lines (D, M: fields and comma counts of the finished lines 0..L-1) plus the unfinished last line (F, m).
This is a bijection with the character sequences, so no text is left out.  A comma-free text is a
number (0: the empty text, others arbitrary); NUM(x) is the printed number x, ATOF its reading.
Arrays built by finished loops are written as LAM terms (lambda-lifted), so that rows of rows have
closed forms; the defining equation of a LAM term is instantiated at the indices that occur."""
from spec_container import *
from strmodel import STREAMS, base

IA = z3.ArraySort(I, I); IAA = z3.ArraySort(I, IA)
NUM = z3.Function('NUM', R, I); ATOF = z3.Function('ATOF', I, R); CAT = z3.Function('CAT', I, I, I); LEN = z3.Function('LEN', I, I)
K0 = z3.K(I, z3.IntVal(0))
S = z3.Select
LAMS = {}; LITS = {}
QV = z3.Const('lam!q', I)
def default_of(sort):
    if sort == I: return z3.IntVal(0)
    if sort == R: return z3.RealVal(0)
    if sort == B: return z3.BoolVal(False)
    if sort.kind() == z3.Z3_ARRAY_SORT: return z3.K(sort.domain(), default_of(sort.range()))
    raise Unsupported('value of sort %s' % sort)
def lift(body):
    """the array q |-> body(q) as LAM_i(parameters)"""
    params = []; cache = {}
    def go(x):
        h = x.get_id()
        if h in cache: return cache[h][1]
        if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x) or x.eq(QV): r = x
        elif QV.decl().name() not in consts_of(x):
            for j, p in enumerate(params):
                if p.eq(x): break
            else: params.append(x); j = len(params) - 1
            r = z3.Const('lam!p%d' % j, x.sort())
        else: r = x.decl()(*[go(y) for y in x.children()])
        cache[h] = (x, r); return r
    sk = go(z3.simplify(body))
    key = (sk.sexpr(), tuple(str(p.sort()) for p in params))
    if key not in LAMS:
        f = z3.Function('LAM_%d' % len(LAMS), *[p.sort() for p in params], z3.ArraySort(I, sk.sort()))
        LAMS[key] = LAMS[f.name()] = (f, sk, [z3.Const('lam!p%d' % j, p.sort()) for j, p in enumerate(params)])
    return LAMS[key][0](*params)
def unlift(t, i):
    f, sk, ps = LAMS[t.decl().name()]
    return z3.substitute(sk, *([(p, a) for p, a in zip(ps, t.children())] + [(QV, i)]))
def is_lam(x): return z3.is_app(x) and x.decl().name() in LAMS and x.decl().kind() == z3.Z3_OP_UNINTERPRETED

def tid(x): return Rec(('tid',), {'t': iv(x)})
def line(F, m): return Rec(('line',), {'F': F, 'm': iv(m)})
def isrec(v, k): return isinstance(v, Rec) and isinstance(v.t, tuple) and v.t[0] == k
def lit_id(s):
    if not s: return z3.IntVal(0)
    return z3.IntVal(LITS.setdefault(s, 1000 + len(LITS)))
def asline(v): return v if isrec(v, 'line') else line(z3.Store(K0, z3.IntVal(0), v.f['t']) if cint(v.f['t']) != 0 else K0, 0)
def cat(a, b):
    if cint(a) == 0: return b
    if cint(b) == 0: return a
    return z3.If(a == 0, b, z3.If(b == 0, a, CAT(a, b)))
def nfields(F, m): return z3.If(S(F, m) == 0, m, m + 1)          # fields getline(',') delivers
def nlines(f): return z3.If(z3.And(f['m'] == 0, S(f['F'], z3.IntVal(0)) == 0), f['L'], f['L'] + 1)
class GFile:
    """the file called FN"""
    def __init__(self, f): self.f = f
    def view(self): return z3.Store(self.f['D'], self.f['L'], self.f['F']), z3.Store(self.f['M'], self.f['L'], self.f['m'])

class TextVM(CVM):
    maxdepth = 3; rekey = True; rounds = 24
    # ------------------------------------------------------------ LAM terms, printed numbers
    def reset_path(self, prefix):
        super().reset_path(prefix); self.lams = {}; self.lidx = {}
    def save(self):
        s = super().save(); s['lams'] = dict(self.lams); s['lidx'] = {k: dict(v) for k, v in self.lidx.items()}; return s
    def restore(self, s):
        super().restore(s); self.lams = dict(s['lams']); self.lidx = {k: dict(v) for k, v in s['lidx'].items()}
    def sadd(self, f): self.solver.add(f)
    def scan(self, f, depth):
        if depth > self.maxdepth: return
        super().scan(f, depth)
        st = [f]; lam = []; idx = []; num = []
        while st:
            x = st.pop(); key = ('x', x.get_id())
            if key in self.scanned: continue
            self.scanned.add(key)
            if is_lam(x): lam.append(x)
            elif z3.is_app(x):
                k = x.decl().kind()
                if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE): idx.append((x.children()[0].sort(), x.children()[1]))
                elif k == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ('NUM', 'CAT', 'LEN'): num.append(x)
            st.extend(x.children())
        for x in num:
            if x.decl().name() == 'NUM': self.add(z3.And(x >= 1, ATOF(x) == x.children()[0]), True, depth + 1)
            elif x.decl().name() == 'CAT': self.add(x >= 1, True, depth + 1)
            else: self.add(z3.And(x >= 0, (x == 0) == (x.children()[0] == 0)), True, depth + 1)
        for x in lam:
            if x.get_id() in self.lams: continue
            self.lams[x.get_id()] = x; self.keep.append(x)
            for i in list(self.lidx.get(str(x.sort()), {}).values()): self.lam_at(x, i, depth)
        for s, i in idx:
            d = self.lidx.setdefault(str(s), {})
            if i.get_id() in d or i.sort() != I: continue
            d[i.get_id()] = i; self.keep.append(i)
            for x in list(self.lams.values()):
                if x.sort() == s: self.lam_at(x, i, depth)
    def lam_at(self, x, i, depth):
        key = ('lam', x.get_id(), i.get_id())
        if key in self.scanned: return
        self.scanned.add(key); self.instn += 1
        if self.instn > 6000: raise Unsupported('too many instances')
        self.add(S(x, i) == unlift(x, i), True, depth + 1)
    def pointwise(self, g):
        """array equations in positive position: at an arbitrary index"""
        if z3.is_eq(g) and g.children()[0].sort().kind() == z3.Z3_ARRAY_SORT:
            a, b = g.children()
            while a.sort().kind() == z3.Z3_ARRAY_SORT:
                j = self.fresh('ext', a.sort().domain()); a, b = S(a, j), S(b, j)
            return a == b
        if z3.is_and(g): return z3.And([self.pointwise(x) for x in g.children()])
        if z3.is_or(g): return z3.Or([self.pointwise(x) for x in g.children()]) if sum(self.has_aeq(x) for x in g.children()) == 1 else g
        if z3.is_implies(g): return z3.Implies(g.children()[0], self.pointwise(g.children()[1]))
        return g
    def has_aeq(self, g):
        if z3.is_eq(g) and g.children()[0].sort().kind() == z3.Z3_ARRAY_SORT: return True
        return (z3.is_and(g) or z3.is_or(g) or z3.is_implies(g)) and any(self.has_aeq(x) for x in g.children())
    def quick(self, g, timeout=1500):
        return super().quick(self.pointwise(z3.simplify(bv(g))), timeout)
    def prove(self, g): return super().prove(self.pointwise(g))
    def verify(self, fid, fn, suffix=''):
        name = self.P.refs[fid]['name'].replace('curves::', '') + suffix
        self.loopcache = {}
        if not self.explore(fn, name): raise Unsupported('path or time budget exhausted in ' + name)
        if self.cover.get(name, 0) == 0 and not suffix.endswith('refused]'): raise Unsupported('contract of %s is vacuous (no feasible path)' % name)
        obs = [o for key, o in self.obls.items() if key[0] == name]
        self.proved_fns[name] = (len(obs), sum(o.status == 'proved' for o in obs))
    # ------------------------------------------------------------ values
    def is_string(self, i):
        t = self.P.T(self.P.strip(i)); return t['k'] == 'rec' and base(t.get('name', '')) == 'std::basic_string'
    def symbolic(self, i, name):
        if self.is_string(i): return tid(self.fresh(name, I))
        return super().symbolic(i, name)
    def default_lib(self, i):
        if self.is_string(i): return tid(0)
        return super().default_lib(i)
    def svec_of(self, v):
        s = SVec(z3.IntVal(len(v.e)), v.et, {p: z3.K(I, default_of(x.sort())) for p, x in self.flat(self.proto(v.et))})   # what lies beyond the size is never read
        for k, x in enumerate(v.e): s = self.svec_set(s, z3.IntVal(k), x)
        return s
    def like(self, x, pr):
        if isrec(pr, 'tid'):
            if isrec(x, 'line'): return self.astid(x)
            s = self.text(x)
            if s is not None: return self.astid(s)
        return super().like(x, pr)
    def astid(self, v):
        if isrec(v, 'tid'): return v
        if self.entails(v.f['m'] == 0): return tid(z3.simplify(S(v.f['F'], z3.IntVal(0))))
        raise Unsupported('text with commas used as a field')
    def flat(self, v, path=()):
        if isinstance(v, SMat) and cint(iv(v.c)) == 1: return [x for x in super().flat(v, path) if x[0] != path + (('c',),)]
        return super().flat(v, path)
    def diffv(self, a, b, ri, path, mod, conv):
        if isrec(a, 'tid') and isrec(b, 'line'): conv.append((ri, path)); return
        if isrec(a, 'line') and isrec(b, 'tid'): b = asline(b)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.t != b.t and isinstance(a.t, tuple): raise Unsupported('stream changes its target in a loop')
        return super().diffv(a, b, ri, path, mod, conv)
    def needs_conv(self, v): return super().needs_conv(v) or isrec(v, 'tid')
    def conv_at(self, v, path):
        if not path and isrec(v, 'tid'): return asline(v)
        return super().conv_at(v, path)
    def leafval(self, ref):
        x = super().leafval(ref)
        if x is None and ref[1] and ref[1][-1] in (('f', 'F'), ('f', 'm')):
            v = self.at(Root._reg[ref[0]].v, ref[1][:-1])
            if isrec(v, 'tid'): return asline(v).f[ref[1][-1][1]]
        return x
    # ------------------------------------------------------------ loops
    def sibling(self, ref, get):
        """(number of elements) that bounds the meaningful part of an array leaf"""
        h = ref[1][-1] if ref[1] else None
        if h is None: return None
        if h[0] == 'v': return get((ref[0], ref[1][:-1] + (('n',),)))
        if h == ('e',): return get((ref[0], ref[1][:-1] + (('r',),)))
        if h == ('f', 'F'):
            m = get((ref[0], ref[1][:-1] + (('f', 'm'),))); return None if m is None else z3.simplify(m + 1)
        if h in (('f', 'D'), ('f', 'M')): return get((ref[0], ref[1][:-1] + (('f', 'L'),)))
        return None
    def early_candidates(self, L, init, outs, k, try_form, try_fact):
        super().early_candidates(L, init, outs, k, try_form, try_fact)
        for ref in L['mod']:
            if ref[1] and ref[1][-1] == ('f', 'p'):
                st = self.at(Root._reg[ref[0]].v, ref[1][:-1])
                if isrec(st, 'stream'):
                    top = st.f['m'] if 'm' in st.f else st.f['L']
                    empty = S(st.f['F'], top) == 0 if 'm' in st.f else z3.And(S(st.f['M'], top) == 0, S(S(st.f['D'], top), z3.IntVal(0)) == 0)
                    er = (ref[0], ref[1][:-1] + (('f', 'eof'),))
                    def inside(get, kk, ref=ref, er=er, top=top, empty=empty, e0=st.f['eof']):
                        eof = get(er) if er in init else e0
                        return [z3.And(get(ref) >= 0, get(ref) <= top + 1, eof == (get(ref) == top + 1), z3.Implies(eof, z3.Not(empty)))]
                    try_fact('inside%s' % (ref,), inside)
    def extra_candidates(self, L, init, outs, k, try_form, try_fact):
        added = super().extra_candidates(L, init, outs, k, try_form, try_fact)
        allowed = L['allowed'] | {k.decl().name()}
        closed = lambda t: consts_of(t) <= allowed
        for ref in L['mod']:
            if ref in L['forms'] or not isinstance(init[ref], z3.ArrayRef): continue
            es = [z3.simplify(o[1][ref]) for o in outs]
            if es and all(e.eq(es[0]) for e in es) and closed(es[0]):
                ge = (lambda g: lambda j: z3.substitute(g, (k, j)))(es[0])
                added = try_form(ref, 'last', (lambda x0, ge: lambda kk: z3.simplify(z3.If(iv(kk) == 0, x0, ge(z3.simplify(iv(kk) - 1)))))(init[ref], ge)) or added
        for ref in L['mod']:        # counts that stop growing before the last iteration
            if ref in L['forms'] or init[ref].sort() != I: continue
            ds = {const_diff(o[1][ref], o[2][ref]) for o in outs}
            if ds != {0, 1}: continue
            for t in self.solved(k, [c for o in outs for c in o[3]]):
                if closed(t) and try_form(ref, 'min %s' % t, (lambda x0, t: lambda kk: z3.simplify(x0 + z3.If(iv(kk) <= t, iv(kk), t)))(init[ref], t)):
                    added = True; fr = (ref[0], ref[1][:-1] + (('f', 'F'),))
                    if fr in init: try_fact('fresh%s' % (ref,), (lambda ref, fr, t: lambda get, kk: [z3.Implies(iv(kk) <= t, S(get(fr), get(ref)) == 0)])(ref, fr, t))
                    break
        return added
    def solved(self, k, fs):
        """terms t with k = t or k+1 = t at the border of a comparison in fs"""
        out = []; seen = set(); st = list(fs); vis = set()
        while st:
            x = st.pop()
            if x.get_id() in vis: continue
            vis.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 2 and x.children()[0].sort() == I and x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                r = coef_of(x.children()[0] - x.children()[1], k)
                if r and r[0] in (1, -1):
                    t = -r[1] if r[0] == 1 else r[1]
                    for u in (t, t + 1, z3.If(t >= 0, t, z3.IntVal(0))):
                        u = z3.simplify(u)
                        if u.get_id() not in seen and k.decl().name() not in consts_of(u): seen.add(u.get_id()); out.append(u)
            if z3.is_bool(x): st.extend(x.children())
        return out
    def peelable(self, L):
        names = [f[0] for f in L['facts']]
        for ref in L['mod']:
            if ref in L['forms']: continue
            if isinstance(self.leafval(ref), z3.ArrayRef) and any(nm.startswith('content%s-' % (ref,)) for nm in names): continue
            return True
        return False
    def symbolic_loop(self, s):
        if s['k'] != 'do' and self.literal_cond(s): return False
        if s['k'] == 'do': return super().symbolic_loop(s)
        key = (self.tag, self.ctx, tuple(self.dec), self.loopn + 1)
        L = self.loopcache.get(key)
        if L is None: L = self.loopcache[key] = self.infer(s, key)
        if L['weak'] and self.peelable(L):      # the first iteration apart
            self.loopn += 1
            if not self.once(s): return True
            if self.literal_cond(s): return False
        return super().symbolic_loop(s)
    def decided(self, t):
        """t with the conditionals resolved that the path decides"""
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            if t.num_args() and t.sort() == I and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): return z3.simplify(t.decl()(*[self.decided(x) for x in t.children()]))
            return t
        c, a, b = t.children()
        if self.entails(c): return self.decided(a)
        if self.entails(z3.Not(c)): return self.decided(b)
        return t
    def trip_count(self, k, n0):
        """a term for the number of completed iterations, from the exit condition"""
        cand = self.solved(k, self.pc[n0:]); seen = {t.get_id() for t in cand}
        def put(t):
            t = z3.simplify(t)
            if t.get_id() not in seen and k.decl().name() not in consts_of(t): seen.add(t.get_id()); cand.append(t)
        for r in list(Root._reg):
            for st in [r.v] + (list(r.v.f.values()) if isinstance(r.v, Rec) else []):
                if isrec(st, 'stream') and 'p' in st.f:
                    put(nfields(st.f['F'], st.f['m']) if 'm' in st.f else st.f['cnt'])
        for t in cand:
            if self.entails(k == t): return t
        return None
    def after_loop(self, s, L, k, n0):
        """write what the finished loop leaves behind in closed form"""
        t = self.trip_count(k, n0)
        sub = [] if t is None else [(k, t)]
        out = {}
        for ref in L['mod']:
            x = self.leafval(ref); h = L['h'][ref]
            if x is None: continue
            if isinstance(h, z3.ArrayRef) and ref not in L['forms']:
                la = self.closed_array(ref, h, k, L)
                if la is not None: x = z3.substitute(x, (h, la))
            if sub: x = z3.substitute(x, *sub)
            out.setdefault(ref[0], {})[ref[1]] = z3.simplify(x)
        for ri, su in out.items():
            root = Root._reg[ri]; v = root.v
            if isrec(v, 'tid') and any(p in su for p in ((('f', 'F'),), (('f', 'm'),))): v = asline(v)
            root.v = self.rebuild(v, su)
    def closed_array(self, ref, h, k, L):
        cs = self.contents_of.get(h.get_id(), []); fr = self.frames_of.get(h.get_id())
        if len(cs) != 1 or fr is None or cs[0][2] != 1: return None
        _, c, _, vj, cnt = cs[0]; _, reg, x0 = fr
        q = self.fresh('q', I)
        inr = z3.And(c <= QV, QV < c + cnt)
        n = self.sibling(ref, self.leafval)
        if not self.entails(z3.Or(reg(q), z3.And(c <= q, q < c + cnt), *([] if n is None else [q < 0, q >= n]))): return None
        if n is None: body = z3.If(inr, vj(QV - c), S(x0, QV))
        else:
            g = z3.And(QV >= 0, QV < n)
            if self.entails(z3.Implies(z3.And(q >= 0, q < n), z3.And(c <= q, q < c + cnt))): body = z3.If(g, vj(QV - c), default_of(h.sort().range()))
            else: body = z3.If(g, z3.If(inr, vj(QV - c), S(x0, QV)), default_of(h.sort().range()))
        return lift(body)
    # ------------------------------------------------------------ texts and streams
    def build(self, et, vals):
        if self.is_string(et) and len(vals) == 1 and self.text(vals[0]) is not None: return self.need(vals[0])
        return super().build(et, vals)
    def text(self, v):
        """tid, line or None"""
        v = self.rval(v)
        if isrec(v, 'tid') or isrec(v, 'line'): return v
        if isinstance(v, Opaque) and isinstance(v.what, str) and v.what.startswith('str:'): return self.lit(v.what[4:])
        if isinstance(v, Ptr) and v.lv is not None: return self.text(v.lv)
        return None
    def lit(self, s):
        if '\n' in s: return ('raw', s)
        if ',' not in s: return tid(lit_id(s))
        F = K0; parts = s.split(',')
        for i, x in enumerate(parts): F = z3.Store(F, z3.IntVal(i), lit_id(x)) if x else F
        return line(F, len(parts) - 1)
    def need(self, v):
        s = self.text(v)
        if s is None or isinstance(s, tuple): raise Unsupported('text value')
        return s
    def join(self, a, b):
        """text a followed by text b"""
        if isrec(a, 'tid') and isrec(b, 'tid'): return tid(z3.simplify(cat(a.f['t'], b.f['t'])))
        a = asline(a); F, m = a.f['F'], a.f['m']
        cur = z3.simplify(S(F, m))
        if isrec(b, 'tid') or cint(b.f['m']) == 0:
            x = b.f['t'] if isrec(b, 'tid') else z3.simplify(S(b.f['F'], z3.IntVal(0)))
            return line(z3.simplify(z3.Store(F, m, self.decided(z3.simplify(cat(cur, x))))), m)
        G, n = b.f['F'], b.f['m']
        if z3.is_const_array(F) and cint(m) == 0: return b
        if cint(n) is not None and cint(n) <= 8:
            F = z3.Store(F, m, self.decided(z3.simplify(cat(cur, z3.simplify(S(G, z3.IntVal(0)))))))
            for i in range(1, cint(n) + 1): F = z3.Store(F, z3.simplify(m + i), z3.simplify(S(G, z3.IntVal(i))))
            return line(z3.simplify(F), z3.simplify(m + n))
        body = z3.If(QV < m, S(F, QV), z3.If(QV == m, cat(cur, S(G, z3.IntVal(0))), S(G, QV - m)))
        return line(lift(body), z3.simplify(m + n))
    def slv(self, v):
        while isinstance(v, Sub): v = v.p
        if isinstance(v, LV) and isrec(v.load(), 'stream'): return v
        return None
    def sopen(self, st, name, mode):
        """st: value of the stream before; returns it open"""
        kind = st.t[1]; nm = self.astid(self.need(name)).f['t']
        me = self.decide(nm == self.FN)
        if kind == 'fin':
            if not me:
                f = {'D': self.fresh('!oD', IAA), 'M': self.fresh('!oM', IA), 'L': self.fresh('!oL', I), 'F': self.fresh('!oF', IA), 'm': self.fresh('!om', I)}
                self.add(z3.And(f['L'] >= 0, f['m'] >= 0)); ex = self.fresh('!oex', B)
            else: f = self.file.load().f; ex = f['ex']
            D, M = GFile(f).view()
            return Rec(('stream', 'fin', me), {'D': D, 'M': M, 'L': f['L'], 'cnt': z3.simplify(nlines(f)), 'p': z3.IntVal(0), 'eof': z3.BoolVal(False), 'bad': z3.simplify(z3.Not(ex))})
        if kind == 'fout':
            app = mode is not None and cint(mode) is not None and cint(mode) & 1
            if mode is not None and cint(mode) is None: raise Unsupported('open mode')
            if me:
                f = self.file.load(); d = dict(f.f); d['ex'] = z3.BoolVal(True)
                if not app: d.update(L=z3.IntVal(0), F=K0, m=z3.IntVal(0))
                self.file.store(Rec(f.t, d))
            self.stats['assumed'].add('a file can be opened for writing and written to')
            return Rec(('stream', 'fout', me), {})
        raise Unsupported('fstream')
    def put(self, lv, t):
        st = lv.load(); kind = st.t[1]
        if kind == 'fout':
            if st.t[2] is not True: return
            tgt = self.file; f = tgt.load().f
        elif kind == 'out': tgt = lv; f = st.f
        else: raise Unsupported('insertion into this stream')
        if isinstance(t, tuple):       # text with line breaks
            parts = t[1].split('\n')
            for i, x in enumerate(parts):
                if i: self.newline(lv)
                if x: self.put(lv, self.lit(x))
            return
        n = asline(self.join(line(f['F'], self.decided(f['m'])), t))
        v = tgt.load(); d = dict(v.f); d.update(F=n.f['F'], m=n.f['m']); tgt.store(Rec(v.t, d))
    def newline(self, lv):
        st = lv.load()
        if st.t[1] != 'fout': raise Unsupported('line break in a string stream')
        if st.t[2] is not True: return
        v = self.file.load(); d = dict(v.f)
        d.update(D=z3.Store(d['D'], d['L'], d['F']), M=z3.Store(d['M'], d['L'], d['m']), L=z3.simplify(d['L'] + 1), F=K0, m=z3.IntVal(0))
        self.file.store(Rec(v.t, d))
    def getline_t(self, lv, dst, delim):
        st = lv.load(); f = st.f; kind = st.t[1]
        if kind == 'fin' and delim == '\n': last = f['L']; new = line(z3.simplify(S(f['D'], f['p'])), z3.simplify(S(f['M'], f['p']))); empty = z3.And(S(f['M'], last) == 0, S(S(f['D'], last), z3.IntVal(0)) == 0)
        elif kind == 'in' and delim == ',': last = f['m']; new = tid(z3.simplify(S(f['F'], f['p']))); empty = S(f['F'], last) == 0
        else: raise Unsupported('getline with this delimiter')
        ok = z3.simplify(z3.And(z3.Not(f['eof']), z3.Not(f['bad']), z3.Not(z3.And(f['p'] == last, empty))))
        d = dict(f)
        if self.decide(ok):
            if kind == 'fin': self.add(new.f['m'] >= 0, True)
            d.update(p=z3.simplify(f['p'] + 1), eof=z3.simplify(f['p'] == last))
            dst.store(new)
        else:
            stop = z3.simplify(z3.Or(f['eof'], f['bad']))
            d.update(eof=z3.simplify(z3.Or(f['eof'], z3.Not(f['bad']))), bad=z3.BoolVal(True))
            old = self.need(dst)
            if isrec(new, 'tid') and isrec(old, 'tid'): dst.store(tid(z3.simplify(z3.If(stop, old.f['t'], z3.IntVal(0)))))
            else:
                o = asline(old); dst.store(line(z3.simplify(z3.If(stop, o.f['F'], K0)), z3.simplify(z3.If(stop, o.f['m'], z3.IntVal(0)))))
        lv.store(Rec(st.t, d))
    def insert_t(self, lv, r, v):
        x = self.rval(v)
        if isinstance(x, Opaque) and isinstance(x.what, tuple):
            nm = self.P.refs[x.what[1]]['short']
            if nm == 'endl': self.newline(lv)
            elif nm not in ('flush',): raise Unsupported('manipulator ' + nm)
            return
        if isinstance(x, Opaque) and isinstance(x.what, str) and x.what.startswith('setprecision:'): return
        s = self.text(x)
        if s is not None: self.put(lv, s); return
        pt = self.P.T(self.P.strip(r['ptypes'][-1]))
        if pt['k'] == 'builtin' and pt['name'] in ('char', 'signed char', 'unsigned char'):
            if cint(x) is None: raise Unsupported('symbolic character')
            self.put(lv, self.lit(chr(cint(x) % 256))); return
        if isinstance(x, z3.ArithRef): self.put(lv, tid(NUM(z3.simplify(rv(x))))); return
        raise Unsupported('stream insertion of ' + pt['s'])
    def char_or_text(self, v):
        x = self.rval(v)
        if isinstance(x, z3.ArithRef):
            if cint(x) is None: raise Unsupported('symbolic character')
            return self.lit(chr(cint(x) % 256))
        return self.need(v)
    def model(self, fid, r, name, cls, obj, vals, e):
        sh = r['short']; b = base(cls)
        lv = self.slv(obj) if obj is not None else self.slv(vals[0]) if vals else None
        if lv is not None and name.startswith('std::'):
            me = obj if obj is not None else vals[0]; rest = vals if obj is not None else vals[1:]
            st = lv.load(); f = st.f
            bad = f.get('bad', z3.BoolVal(False)); eof = f.get('eof', z3.BoolVal(False))
            if sh == 'operator<<': self.insert_t(lv, r, rest[0]); return me
            if sh == 'getline' and obj is None: self.getline_t(lv, rest[0], chr(cint(self.rval(rest[1]))) if len(rest) > 1 else '\n'); return me
            if sh == 'good': return z3.simplify(z3.And(z3.Not(eof), z3.Not(bad)))
            if sh in ('fail', 'operator!'): return bad
            if sh == 'operator bool': return z3.simplify(z3.Not(bad))
            if sh == 'bad': return z3.BoolVal(False)
            if sh == 'eof': return eof
            if sh == 'is_open': return z3.simplify(z3.Not(bad)) if st.t[1] == 'fin' else bv(st.t[2] is not None)
            if sh == 'open': lv.store(self.sopen(st, rest[0], self.rval(rest[1]) if len(rest) > 1 else None)); return None
            if sh == 'close':
                if st.t[1] == 'fout': lv.store(Rec(('stream', 'fout', None), {}))
                return None
            if sh == 'flush': return me
            if sh == 'put': self.put(lv, self.char_or_text(rest[0])); return me
            if sh == 'str':
                if not rest and st.t[1] in ('out',):
                    if cint(f['m']) == 0: return tid(z3.simplify(S(f['F'], z3.IntVal(0))))
                    return line(f['F'], f['m'])
                if rest and st.t[1] in ('in', 'out'):
                    a = asline(self.need(rest[0])); d = dict(f); d.update(F=a.f['F'], m=a.f['m'])
                    if 'p' in d: d.update(p=z3.IntVal(0))
                    lv.store(Rec(st.t, d)); return None
            if sh == 'clear' and 'eof' in f:
                d = dict(f); d.update(eof=z3.BoolVal(False), bad=z3.BoolVal(False)); lv.store(Rec(st.t, d)); return None
            if sh == 'clear': return None
            if sh == 'precision' and rest and cint(self.rval(rest[0])) is not None and cint(self.rval(rest[0])) >= 6: return z3.IntVal(6)
            raise Unsupported('stream operation ' + sh)
        if b == 'std::basic_string':
            o = obj; s = self.need(obj)
            if sh in ('c_str', 'data', 'str'): return s
            if sh == 'operator=': o.store(self.char_or_text(vals[0])); return o
            if sh in ('operator+=', 'append', 'push_back') and len(vals) == 1: o.store(self.join(s, self.char_or_text(vals[0]))); return o
            if sh == 'empty': return z3.simplify(s.f['t'] == 0) if isrec(s, 'tid') else z3.simplify(z3.And(s.f['m'] == 0, S(s.f['F'], z3.IntVal(0)) == 0))
            if sh in ('size', 'length') and isrec(s, 'tid'): return LEN(s.f['t'])
            if sh == 'clear': o.store(tid(0)); return None
            if sh in ('reserve', 'shrink_to_fit'): return None
            if sh == 'swap':
                a = vals[0].load(); vals[0].store(s); o.store(a); return None
            raise Unsupported('string ' + sh)
        if name in ('std::operator==', 'std::operator!=', 'std::operator+') and len(vals) == 2 and (self.text(vals[0]) is not None or self.text(vals[1]) is not None):
            x, y = self.char_or_text(vals[0]), self.char_or_text(vals[1])
            if sh == 'operator+': return self.join(x, y)
            q = self.astid(x).f['t'] == self.astid(y).f['t']
            return q if sh == 'operator==' else z3.Not(q)
        if name in ('atof', 'strtod', 'std::stod', 'std::atof', 'std::strtod') or name.endswith('::stod'):
            return ATOF(self.astid(self.need(vals[0])).f['t'])
        if base(name) == 'std::to_string' or name in ('vf::field', 'vf::file', 'vf::same'): raise Unsupported(name)
        return super().model(fid, r, name, cls, obj, vals, e)
    def model_ctor(self, ty, fid, r, vals, e):
        n = base(self.P.T(ty)['name'])
        if n == 'std::basic_string':
            if not vals: return tid(0)
            s = self.text(vals[0])
            if s is not None and not isinstance(s, tuple): return s
            raise Unsupported('string constructor')
        if n in STREAMS:
            kind = STREAMS[n]
            if kind in ('fin', 'fout'):
                if kind == 'fin': st = Rec(('stream', 'fin', None), {'bad': z3.BoolVal(False), 'eof': z3.BoolVal(False)})
                else: st = Rec(('stream', 'fout', None), {})
                return self.sopen(st, vals[0], self.rval(vals[1]) if len(vals) > 1 else None) if vals else st
            if kind == 'in':
                a = asline(self.need(vals[0])) if vals and self.text(vals[0]) is not None else line(K0, 0)
                return Rec(('stream', 'in', True), {'F': a.f['F'], 'm': a.f['m'], 'p': z3.IntVal(0), 'eof': z3.BoolVal(False), 'bad': z3.BoolVal(False)})
            if kind == 'out': return Rec(('stream', 'out', True), {'F': K0, 'm': z3.IntVal(0)})
            if kind == 'io' and vals and self.text(vals[0]) is not None:
                a = asline(self.need(vals[0]))
                return Rec(('stream', 'in', True), {'F': a.f['F'], 'm': a.f['m'], 'p': z3.IntVal(0), 'eof': z3.BoolVal(False), 'bad': z3.BoolVal(False)})
            if kind == 'io': return Rec(('stream', 'out', True), {'F': K0, 'm': z3.IntVal(0)})
            raise Unsupported('fstream')
        return super().model_ctor(ty, fid, r, vals, e)
