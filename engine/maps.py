"""std::map and boost::unordered_map of symbolic size.

A map value is a set of nodes in an iteration order: n nodes, nth[i] the node at rank i (nth[n] = -1, the
end position), pos[u] the rank of node u (pos[-1] = n, -1 for what is not a node of the map).  For an
unordered map the node of key k is k itself.  An ordered map has a key K[u] per node, ordered along the
ranks, and at[t], the node with key t (or -1).  The mapped values are arrays over nodes.  Iterators are
MIter(lvalue of the map, node)."""
from spec_container import *

RI = z3.ArraySort(R, I)
END = z3.IntVal(-1)
SINGULAR = z3.IntVal(-2)
class NMap(CMap):
    __slots__ = ('f', 'ordered')
    def __init__(s, f, kt, vt, ordered): s.f = f; s.kt = kt; s.vt = vt; s.ordered = ordered; s.items = ()
    n = property(lambda s: s.f['n']); nth = property(lambda s: s.f['nth']); pos = property(lambda s: s.f['pos'])
    at = property(lambda s: s.f['at']); K = property(lambda s: s.f['K'])
    def val(s, *p): return s.f[('v', tuple(p))]
    def vals(s): return {k[1]: a for k, a in s.f.items() if isinstance(k, tuple)}
    def but(s, **kw):
        f = dict(s.f); f.update(kw); return NMap(f, s.kt, s.vt, s.ordered)
    def member(s, u): return z3.And(u >= 0, z3.Select(s.pos, u) >= 0)
MAPN = ('std::map',); UMAPN = ('boost::unordered::unordered_map', 'std::unordered_map', 'boost::unordered_map')
def unless(a, *bs):
    """trigger on a, except at indices that are reads of bs (the fact adds nothing there)"""
    ids = [b.get_id() for b in bs]
    return (a, lambda i: None if z3.is_select(i) and i.children()[0].get_id() in ids else i)
class NSub(Sub):
    """mapped value of a node: iterators stored in it belong to the ordered map next to it"""
    def load(s):
        v = super().load()
        return s.vm.rehome(v, s.p)
    def store(s, v):
        s.vm.check_home(v, s.p); super().store(v)
class NNode(MapNode):
    def field(s, m): return NSub(s.vm, s.lv, ('n', s.uid, m))

class MapVM(CVM):
    maxdepth = 2
    # ------------------------------------------------------------ values
    def reset_path(self, prefix):
        super().reset_path(prefix)
        self.nms = {}             # nth array id -> map
        self.pairs = {}           # array id -> [fn(x, y)]
    def save(self):
        s = super().save(); s['nms'] = dict(self.nms); s['idepth'] = dict(self.idepth); s['sdepth'] = dict(self.sdepth); s['pairs'] = {k: list(v) for k, v in self.pairs.items()}; return s
    def restore(self, s):
        super().restore(s); self.nms = dict(s['nms']); self.idepth = dict(s['idepth']); self.sdepth = dict(s['sdepth']); self.pairs = {k: list(v) for k, v in s['pairs'].items()}
    def is_map(self, i):
        t = self.P.T(self.P.strip(i)); return t['k'] == 'rec' and t.get('name') in MAPN + UMAPN
    def is_iter(self, t): return t['k'] == 'rec' and (t['name'].startswith('std::_Rb_tree') or t['name'].startswith('boost::unordered::iterator_detail') or t['name'].startswith('std::__detail::_Node'))
    def nmap_fresh(self, i, name):
        t = self.P.T(self.P.strip(i)); od = t['name'] in MAPN
        kt, vt = t['args'][0]['t'], t['args'][1]['t']
        f = {'n': self.fresh(name + '.n', I), 'nth': self.fresh(name + '.nth', z3.ArraySort(I, I)), 'pos': self.fresh(name + '.pos', z3.ArraySort(I, I))}
        if od: f['at'] = self.fresh(name + '.at', RI); f['K'] = self.fresh(name + '.K', AR)
        for p, x in self.flat(self.proto(vt)): f[('v', p)] = self.fresh(name + '.v.' + self.pname(p), z3.ArraySort(I, x.sort()))
        m = NMap(f, kt, vt, od)
        self.add(z3.And(m.n >= 0, m.n <= MAXN)); self.map_facts(m)
        return m
    def nmap_empty(self, i):
        t = self.P.T(self.P.strip(i)); od = t['name'] in MAPN
        kt, vt = t['args'][0]['t'], t['args'][1]['t']
        if od and self.P.T(self.P.strip(kt)).get('name') != 'double' or not od and not self.P.T(self.P.strip(kt)).get('int'): return None
        f = {'n': z3.IntVal(0), 'nth': z3.K(I, END), 'pos': z3.Store(z3.K(I, END), END, z3.IntVal(0))}
        if od: f['at'] = z3.K(R, END); f['K'] = self.fresh('!K', AR)
        for p, x in self.flat(self.proto(vt)): f[('v', p)] = self.fresh('!mv.' + self.pname(p), z3.ArraySort(I, x.sort()))
        return NMap(f, kt, vt, od)
    def map_facts(self, m):
        """what holds of every map value (library contract)"""
        n, nth, pos = m.n, m.nth, m.pos
        if nth.get_id() in self.nms: return
        self.nms[nth.get_id()] = m; self.keep += [m, nth]
        S = z3.Select
        self.stats['assumed'].add('std::map / boost::unordered_map hold each key once; std::map iterates in key order; node handles stay valid until erased')
        self.add(z3.And(S(pos, END) == n, S(nth, n) == END), True)
        self.addq(QF(z3.IntVal(0), z3.simplify(n + 1), lambda i: z3.And(S(pos, S(nth, i)) == i, z3.Implies(i < n, S(nth, i) >= 0)), [unless(nth, pos)], name='order'))
        self.addq(QF(None, None, lambda u: z3.And(S(pos, u) >= -1, S(pos, u) <= n, z3.Implies(S(pos, u) >= 0, S(nth, S(pos, u)) == u), z3.Implies(u != -1, S(pos, u) < n), z3.Implies(u < -1, S(pos, u) == -1)), [unless(pos, nth)], name='rank'))
        if m.ordered:
            K, at = m.K, m.at
            self.addq(QF(None, None, lambda t: z3.And(S(at, t) >= -1, z3.Implies(S(at, t) >= 0, z3.And(S(pos, S(at, t)) >= 0, S(K, S(at, t)) == t))), [unless(at, K)], name='by key'))
            self.addq(QF(None, None, lambda u: z3.Implies(m.member(u), S(at, S(K, u)) == u), [unless(K, at)], name='key of'))
            self.addpair(K, lambda u, w: z3.Implies(z3.And(m.member(u), m.member(w)), (S(pos, u) < S(pos, w)) == (S(K, u) < S(K, w))))
    def addpair(self, a, fn):
        self.pairs.setdefault(a.get_id(), []).append(fn); self.keep.append(a)
        xs = [i for _, i in self.seen.get(a.get_id(), {}).values()]
        for x, y in itertools.combinations(xs, 2): self.add(z3.And(fn(x, y), fn(y, x)), True, self.maxdepth)
    def on_seen(self, b, i, depth):
        for fn in self.pairs.get(b.get_id(), ()):
            for _, j in list(self.seen[b.get_id()].values()):
                if not j.eq(i):
                    key = ('pair', b.get_id(), i.get_id(), j.get_id(), id(fn))
                    if key in self.scanned: continue
                    self.scanned.add(key); self.keep += [i, j, fn]
                    self.instn += 1
                    if self.instn > 20000: raise Unsupported('too many instances')
                    self.add(z3.And(fn(i, j), fn(j, i)), True, max(self.maxdepth, depth))
    def flat(self, v, path=()):
        if isinstance(v, NMap): return [(path + (('map', k),), a) for k, a in v.f.items()]
        if isinstance(v, MIter): return [(path + (('mi',),), v.uid if v.uid is not None else SINGULAR)]
        return super().flat(v, path)
    def rebuild(self, v, sub, path=()):
        if isinstance(v, NMap):
            f = {k: sub.get(path + (('map', k),), a) for k, a in v.f.items()}
            if all(f[k] is v.f[k] for k in f): return v
            m = NMap(f, v.kt, v.vt, v.ordered)
            if any(not f[k].eq(v.f[k]) for k in f if not isinstance(k, tuple)): self.fresh_maps.append(m)
            return m
        if isinstance(v, MIter): return MIter(v.lv, sub.get(path + (('mi',),), v.uid), v.rev)
        return super().rebuild(v, sub, path)
    fresh_maps = []
    def head(self, L, k, init):
        self.fresh_maps = []
        def facts():
            for m in self.fresh_maps: self.add(z3.And(m.n >= 0, m.n <= MAXN), True); self.map_facts(m)
        self.head_hook = facts
        super().head(L, k, init)
        self.fresh_maps = []
    def diffv(self, a, b, ri, path, mod, conv):
        if a is b: return
        if isinstance(a, NMap) and isinstance(b, NMap):
            for k in a.f: self.diffv(a.f[k], b.f[k], ri, path + (('map', k),), mod, conv)
            return
        if isinstance(a, MIter) and isinstance(b, MIter):
            if a.rev != b.rev: raise Unsupported('iterator changes direction in a loop')
            if a.lv is None and b.lv is not None:
                r = b.lv.root()[0]
                if r not in Root._reg[:self.loop_roots]: raise Unsupported('iterator into a map local to a loop')
                conv.append((ri, path)); self.conv_home[(ri, path)] = b.lv; return
            if not (a.lv is b.lv or (a.lv is not None and b.lv is not None and self.same_lv(a.lv, b.lv))): raise Unsupported('iterator retargeted in a loop')
            self.diffv(a.uid, b.uid, ri, path + (('mi',),), mod, conv); return
        return super().diffv(a, b, ri, path, mod, conv)
    def same_lv(self, a, b):
        ra, pa = a.root(); rb, pb = b.root()
        return ra is rb and len(pa) == len(pb) and all(len(x) == len(y) and all(p.eq(q) if isinstance(p, z3.ExprRef) and isinstance(q, z3.ExprRef) else not isinstance(p, z3.ExprRef) and not isinstance(q, z3.ExprRef) and p == q for p, q in zip(x, y)) for x, y in zip(pa, pb))
    conv_home = {}
    def diff(self, before, nroots):
        self.loop_roots = nroots; return super().diff(before, nroots)
    def convert(self, conv):
        for ri, path in conv:
            root = Root._reg[ri]; self.conv_ref = (ri, path); root.v = self.conv_at(root.v, path)
    def conv_at(self, v, path):
        if not path and isinstance(v, MIter): return MIter(self.conv_home[self.conv_ref], v.uid if v.uid is not None else SINGULAR, v.rev) if v.lv is None else v
        return super().conv_at(v, path)
    def needs_conv(self, v): return isinstance(v, CVec) or isinstance(v, MIter) and v.lv is None
    def at_(self, v, path): return self.at(v, path)
    def like(self, x, pr):
        if isinstance(pr, MIter) and isinstance(x, MIter) and x.uid is None: return MIter(x.lv, SINGULAR if x.lv is None else END, x.rev)
        return super().like(x, pr)
    def default_lib(self, i):
        t = self.P.T(self.P.strip(i))
        if t.get('name') in MAPN + UMAPN:
            m = self.nmap_empty(i)
            if m is not None: return m
        if t['k'] == 'rec' and self.is_iter(t): return MIter(None, SINGULAR)
        return super().default_lib(i)
    def symbolic(self, i, name):
        i2 = self.P.strip(i); t = self.P.T(i2)
        if t['k'] == 'rec':
            if t['name'] in MAPN + UMAPN: return self.nmap_fresh(i2, name)
            if self.is_iter(t): return MIter(None, self.fresh(name + '.it', I))
            if t['name'] == 'std::pair': return Pair(self.symbolic(t['args'][0]['t'], name + '.a'), self.symbolic(t['args'][1]['t'], name + '.b'))
        return super().symbolic(i, name)
    def home(self, lv):
        """the ordered map that lies beside lv in the same object"""
        if isinstance(lv, Sub) and isinstance(lv.p, LV):
            o = lv.p.load()
            if isinstance(o, Rec):
                c = [k for k, x in o.f.items() if isinstance(x, NMap) and x.ordered]
                if len(c) == 1: return Sub(self, lv.p, ('f', c[0]))
        raise Unsupported('iterator stored in a map without a known target')
    def rehome(self, v, lv):
        if isinstance(v, MIter): return MIter(self.home(lv), v.uid, v.rev)
        if isinstance(v, Rec):
            return Rec(v.t, {k: self.rehome(x, lv) for k, x in v.f.items()}) if any(isinstance(x, MIter) for x in v.f.values()) else v
        return v
    def check_home(self, v, lv):
        if isinstance(v, MIter):
            if v.rev or v.lv is None or not self.same_lv(v.lv, self.home(lv)): raise Unsupported('iterator of another map stored')
    def tovec(self, v): return self.svec_of(v) if isinstance(v, CVec) else v
    # ------------------------------------------------------------ nodes
    def node_elem(self, m, u): return self.rebuild(self.proto(m.vt), {p: sel(a, u) for p, a in m.vals().items()})
    def node_set(self, m, u, x):
        fx = dict(self.flat(self.tosym(x, m.vt))); f = dict(m.f)
        for p, a in m.vals().items():
            if p not in fx: raise Unsupported('mapped value shape')
            if not z3.simplify(z3.Select(a, u)).eq(z3.simplify(fx[p])): f[('v', p)] = z3.Store(a, u, fx[p])
        return NMap(f, m.kt, m.vt, m.ordered)
    def select(self, v, s):
        if s[0] == 'n' and isinstance(v, NMap):
            if s[2] == 'first': return sel(v.K, s[1]) if v.ordered else s[1]
            return self.node_elem(v, s[1])
        return super().select(v, s)
    def update(self, v, s, x):
        if s[0] == 'n' and isinstance(v, NMap):
            if s[2] == 'first': raise Unsupported('store to the key of a map node')
            return self.node_set(v, s[1], x)
        return super().update(v, s, x)
    def rank(self, m, u):
        u = z3.simplify(u)
        if cint(u) == -1: return m.n
        if z3.is_select(u) and u.children()[0].eq(m.nth):
            i = u.children()[1]
            if self.entails(z3.And(i >= 0, i <= m.n)): return i
        return z3.Select(m.pos, u)
    def miter_map(self, p):
        if p.lv is None:
            self.oblige(False, 'use of a singular map iterator', 'safety'); raise PathEnd()
        m = p.lv.load()
        if not isinstance(m, NMap): raise Unsupported('map iterator')
        return m
    def miter_node(self, p):
        if p.rev: p = self.m_prev(p)
        m = self.miter_map(p)
        self.oblige(z3.And(p.uid >= 0, z3.Select(m.pos, p.uid) >= 0), 'dereferenced map iterator points to a stored entry', 'safety')
        return NNode(self, p.lv, p.uid)
    def m_prev(self, p):
        m = self.miter_map(p); r = self.rank(m, p.uid)
        self.oblige(r > 0, 'decremented map iterator is not the first', 'safety')
        return MIter(p.lv, sel(m.nth, z3.simplify(r - 1)))
    def m_next(self, p):
        m = self.miter_map(p); r = self.rank(m, p.uid)
        self.oblige(z3.And(r >= 0, r < m.n), 'incremented map iterator points to a stored entry', 'safety')
        return MIter(p.lv, sel(m.nth, z3.simplify(r + 1)))
    def iterop(self, op, a, b):
        if isinstance(a, MIter) and isinstance(b, MIter):
            if op not in ('==', '!='): raise Unsupported('map iterator operator ' + op)
            if (a.lv is None) != (b.lv is None): raise Unsupported('comparison with a singular iterator')
            r = a.uid == b.uid
            return z3.simplify(r if op == '==' else z3.Not(r))
        return super().iterop(op, a, b)
    # ------------------------------------------------------------ operations
    def bound(self, m, t, strict):
        """rank of the first key >= t (strict: > t)"""
        r = self.fresh('!rank', I); S = z3.Select
        kb = S(m.K, S(m.nth, r - 1)); ka = S(m.K, S(m.nth, r))
        self.add(z3.And(r >= 0, r <= m.n, z3.Implies(r > 0, kb <= t if strict else kb < t), z3.Implies(r < m.n, ka > t if strict else ka >= t)), True)
        return r
    def grow(self, lv, m, key, val):
        """insert a key that is not there; returns the node"""
        S = z3.Select
        self.oblige(m.n + 1 <= MAXN, 'map stays within the supported size', 'size') if False else self.add(m.n < MAXN, True)
        nth2 = self.fresh('!nth', m.nth.sort()); pos2 = self.fresh('!pos', m.pos.sort())
        f = dict(m.f); f['n'] = z3.simplify(m.n + 1); f['nth'] = nth2; f['pos'] = pos2
        if m.ordered:
            r = self.bound(m, key, False)
            u = self.fresh('!node', I); self.add(z3.And(u >= 0, S(m.pos, u) == -1), True)
            f['K'] = z3.Store(m.K, u, key); f['at'] = z3.Store(m.at, key, u)
        else: u = key
        m2 = NMap(f, m.kt, m.vt, m.ordered)
        m2 = self.node_set(m2, u, val if val is not None else self.value_construct(m.vt))
        self.map_facts(m2)
        if m.ordered:
            self.addq(QF(None, None, lambda w: S(pos2, w) == z3.If(w == u, r, z3.If(S(m.pos, w) >= r, S(m.pos, w) + 1, S(m.pos, w))), [direct(pos2), direct(m.pos)], always=[u], name='insert'))
            self.addq(QF(z3.IntVal(0), z3.simplify(m.n + 2), lambda i: S(nth2, i) == z3.If(i < r, S(m.nth, i), z3.If(i == r, u, S(m.nth, i - 1))), [direct(nth2)], name='insert'))
        else:
            self.addq(QF(None, None, lambda w: z3.Implies(w >= 0, (S(pos2, w) >= 0) == z3.Or(w == u, S(m.pos, w) >= 0)), [direct(pos2), direct(m.pos)], always=[u], name='insert'))
        lv.store(m2)
        return u
    def shrink(self, lv, m, u):
        S = z3.Select
        nth2 = self.fresh('!nth', m.nth.sort()); pos2 = self.fresh('!pos', m.pos.sort())
        f = dict(m.f); f['n'] = z3.simplify(m.n - 1); f['nth'] = nth2; f['pos'] = pos2
        if m.ordered: f['at'] = z3.Store(m.at, S(m.K, u), END)
        r = S(m.pos, u)
        m2 = NMap(f, m.kt, m.vt, m.ordered)
        self.map_facts(m2)
        if m.ordered:
            self.addq(QF(None, None, lambda w: S(pos2, w) == z3.If(S(m.pos, w) > r, S(m.pos, w) - 1, z3.If(w == u, END, S(m.pos, w))), [direct(pos2), direct(m.pos)], always=[u], name='erase'))
            self.addq(QF(z3.IntVal(0), m.n, lambda i: S(nth2, i) == z3.If(i < r, S(m.nth, i), S(m.nth, i + 1)), [direct(nth2)], name='erase'))
        else:
            self.addq(QF(None, None, lambda w: z3.Implies(w >= 0, (S(pos2, w) >= 0) == z3.And(w != u, S(m.pos, w) >= 0)), [direct(pos2), direct(m.pos)], always=[u], name='erase'))
        lv.store(m2)
        return m2
    def emptied(self, m):
        f = dict(m.f); f['n'] = z3.IntVal(0); f['nth'] = z3.K(I, END); f['pos'] = z3.Store(z3.K(I, END), END, z3.IntVal(0))
        if m.ordered: f['at'] = z3.K(R, END)
        return NMap(f, m.kt, m.vt, m.ordered)
    def mlook(self, m, key):
        """node of key, or the end"""
        if m.ordered: return sel(m.at, rv(key))
        return z3.simplify(z3.If(z3.Select(m.pos, key) >= 0, key, END))
    def mhas(self, m, key): return z3.Select(m.at, rv(key)) >= 0 if m.ordered else z3.Select(m.pos, key) >= 0
    def smap(self, sh, r, obj, vals): return self.anymap(sh, r, obj, vals, super().smap)
    def umap(self, sh, r, obj, vals): return self.anymap(sh, r, obj, vals, super().umap)
    def anymap(self, sh, r, obj, vals, base):
        lv = self.lval(obj); m = lv.load(); op = r.get('op')
        if not isinstance(m, NMap): return base(sh, r, obj, vals)
        g = [self.rval(v) for v in vals]
        if sh == 'size': return m.n
        if sh == 'empty': return z3.simplify(m.n == 0)
        if sh == 'clear': lv.store(self.emptied(m)); return None
        if sh in ('reserve', 'rehash'): return None
        if sh in ('begin', 'cbegin'): return MIter(lv, sel(m.nth, z3.IntVal(0)))
        if sh in ('end', 'cend'): return MIter(lv, END)
        if sh in ('rbegin', 'crbegin'): return MIter(lv, END, True)
        if sh in ('rend', 'crend'): return MIter(lv, sel(m.nth, z3.IntVal(0)), True)
        if sh == 'find':
            if m.ordered: return MIter(lv, self.mlook(m, g[0]))
            return MIter(lv, g[0] if self.decide(self.mhas(m, g[0])) else END)
        if sh == 'count': return z3.simplify(z3.If(self.mhas(m, g[0]), z3.IntVal(1), z3.IntVal(0)))
        if sh in ('upper_bound', 'lower_bound') and m.ordered: return MIter(lv, sel(m.nth, self.bound(m, rv(g[0]), sh == 'upper_bound')))
        if sh in ('operator[]', 'at') :
            key = rv(g[0]) if m.ordered else g[0]
            if self.decide(self.mhas(m, key)): u = self.mlook(m, key) if m.ordered else key
            elif sh == 'at': self.on_abort('map::at'); raise ProgAbort()
            else: u = self.grow(lv, m, key, None)
            return NSub(self, lv, ('n', u, 'second'))
        if sh in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace'):
            hint = False
            if len(g) >= 2 and isinstance(g[0], MIter) and (len(g) == 3 or isinstance(g[1], Pair)):
                hint = True
                self.oblige(z3.Select(m.pos, g[0].uid) >= 0, 'insertion hint is an iterator of the map', 'safety'); g = g[1:]
            if not (len(g) == 2 or len(g) == 1 and isinstance(g[0], Pair)): raise Unsupported('map ' + sh)
            key, val = g if len(g) == 2 else (g[0].a, g[0].b)
            self.check_home(val, lv)
            if m.ordered: key = rv(key)
            if self.decide(self.mhas(m, key)):
                u = self.mlook(m, key) if m.ordered else key; ok = False
                if sh == 'insert_or_assign': NSub(self, lv, ('n', u, 'second')).store(val)
            else: u = self.grow(lv, m, key, val); ok = True
            return MIter(lv, u) if hint else Pair(MIter(lv, u), z3.BoolVal(ok))
        if sh == 'erase':
            if len(g) == 2: raise Unsupported('range erase')
            if isinstance(g[0], MIter):
                u = g[0].uid
                self.oblige(z3.And(u >= 0, z3.Select(m.pos, u) >= 0), 'erased map iterator points to a stored entry', 'safety')
                rk = z3.Select(m.pos, u)
                m2 = self.shrink(lv, m, u)
                return MIter(lv, sel(m2.nth, rk)) if m.ordered else MIter(lv, self.fresh('!it', I))
            if self.decide(self.mhas(m, g[0])): self.shrink(lv, m, self.mlook(m, g[0]) if m.ordered else g[0]); return z3.IntVal(1)
            return z3.IntVal(0)
        if op == '=': lv.store(g[0]); return lv
        raise Unsupported('map operation ' + sh)
    def stdfn(self, name, sh, r, vals, fid):
        if sh == 'distance' and len(vals) == 2:
            a, b = self.rval(vals[0]), self.rval(vals[1])
            if isinstance(a, MIter) and isinstance(b, MIter):
                m = self.miter_map(a); d = z3.simplify(self.rank(m, b.uid) - self.rank(m, a.uid))
                self.oblige(z3.And(self.rank(m, a.uid) >= 0, d >= 0), 'valid map iterator range', 'safety'); return d
        return super().stdfn(name, sh, r, vals, fid)
    # ------------------------------------------------------------ loop invariants
    def early_candidates(self, L, init, outs, k, try_form, try_fact):
        S = z3.Select
        walks = L.setdefault('walks', {})
        for ref in L['mod']:
            if not ref[1] or ref[1][-1] != ('mi',): continue
            if ref not in walks and ref not in L['forms']:
                st = []
                for o in outs:
                    e = z3.simplify(o[1][ref])
                    if not z3.is_select(e) or e.children()[0].get_id() not in self.nms: st.append(None); continue
                    m = self.nms[e.children()[0].get_id()]
                    st.append((m, const_diff(e.children()[1], S(m.pos, o[2][ref]))))
                if not st or any(x is None or x[1] is None for x in st) or len({(x[0].nth.get_id(), x[1]) for x in st}) != 1: continue
                m, d = st[0]
                walks[ref] = (m, z3.simplify(self.rank(m, init[ref])), d)
            if ref in walks:
                m, p0, d = walks[ref]
                try_form(ref, 'walk', (lambda m, p0, d: lambda kk: sel(m.nth, z3.simplify(p0 + d * iv(kk))))(m, p0, d))
                if ref in L['forms']: try_fact('inside%s' % (ref,), (lambda m, p0, d: lambda get, kk: [z3.And(p0 + d * iv(kk) >= 0, p0 + d * iv(kk) <= m.n)])(m, p0, d))
    def extra_candidates(self, L, init, outs, k, try_form, try_fact):
        S = z3.Select
        added = False
        allowed = L['allowed'] | {k.decl().name()}
        closed = lambda t: consts_of(t) <= allowed
        # flags that accumulate a condition
        for ref in L['mod']:
            if init[ref].sort() == B and ref not in L['forms']:
                cs = []
                for o in outs:
                    e = z3.simplify(o[1][ref]); h = o[2][ref]
                    if z3.is_and(e) and any(x.eq(h) for x in e.children()): cs.append(z3.simplify(z3.And([x for x in e.children() if not x.eq(h)])))
                    else: cs.append(None)
                if cs and cs[0] is not None and all(c is not None and c.eq(cs[0]) for c in cs) and closed(cs[0]):
                    c = cs[0]; cj = (lambda c: lambda j: z3.substitute(c, (k, iv(j))))(c)
                    tj = z3.Const('tj!', I)
                    added = try_fact('total%s-all' % (ref,), (lambda ref, cj, trig: lambda get, kk: [QF(z3.IntVal(0), iv(kk), lambda j: z3.Implies(get(ref), cj(j)), trig, always=[z3.simplify(iv(kk) - 1)])])(ref, cj, auto_trig(cj(tj), tj))) or added
        # values written at the nodes of a walk
        for ref in L['mod']:
            x0 = init[ref]
            if not isinstance(x0, z3.ArrayRef) or ref in L['forms']: continue
            st = [self.stores(o[1][ref], o[2][ref]) for o in outs]
            if any(x is None or len(x) != 1 for x in st): continue
            i = z3.simplify(st[0][0][0]); v = z3.simplify(st[0][0][1])
            if any(not z3.simplify(x[0][0]).eq(i) or not z3.simplify(x[0][1]).eq(v) for x in st): continue
            if not z3.is_select(i) or i.children()[0].get_id() not in self.nms or not closed(i) or not closed(v): continue
            m = self.nms[i.children()[0].get_id()]; c = coef_of(i.children()[1], k)
            if not c or c[0] not in (1, -1): continue
            d, r0 = c
            vj = (lambda v: lambda j: z3.substitute(v, (k, iv(j))))(v)
            lo = (lambda r0, d: lambda kk: r0 if d > 0 else z3.simplify(r0 - iv(kk) + 1))(r0, d)
            hi = (lambda r0, d: lambda kk: z3.simplify(r0 + iv(kk)) if d > 0 else z3.simplify(r0 + 1))(r0, d)
            def frame(get, kk, ref=ref, m=m, lo=lo, hi=hi, x0=x0):
                return [QF(None, None, lambda u: z3.Implies(z3.Or(S(m.pos, u) < lo(kk), S(m.pos, u) >= hi(kk)), S(get(ref), u) == S(x0, u)), [direct(get(ref))])]
            def content(get, kk, ref=ref, m=m, vj=vj, r0=r0, d=d):
                return [QF(z3.IntVal(0), iv(kk), lambda j: S(get(ref), S(m.nth, z3.simplify(r0 + d * j))) == vj(j), [(m.nth, lambda idx: z3.simplify((idx - r0) * d))], always=[z3.simplify(iv(kk) - 1)])]
            added = try_fact('total%s-frame' % (ref,), frame) or added
            added = try_fact('total%s-content' % (ref,), content) or added
        return self.spec_candidates(L, init, outs, k, try_form, try_fact) or added
    def spec_candidates(self, L, init, outs, k, try_form, try_fact): return False
