"""Contracts of LocalSupport2CoefficientManager<C> (C11, C12): the store is a finite map from keys to
(time, coefficient); the representation invariant ties the two maps of the class to it."""
from maps import *

LASTF = z3.Function('LAST', I, RI)
BA = z3.ArraySort(I, B)
S = z3.Select
class Store:
    """abstract view of a manager object in the current state"""
    def __init__(self, vm, lv):
        self.vm = vm; self.lv = lv; o = lv.load(); self.o = o
        od = [k for k, x in o.f.items() if isinstance(x, NMap) and x.ordered]; un = [k for k, x in o.f.items() if isinstance(x, NMap) and not x.ordered]
        if len(od) != 1 or len(un) != 1: raise Unsupported('representation of the coefficient store')
        self.fM, self.fU = od[0], un[0]
        self.M, self.U = o.f[od[0]], o.f[un[0]]
        self.iss = vm.issued.load()
        mv = self.M.vals()
        kp = [p for p, a in mv.items() if p and p[-1] == ('f', 'key')]
        if len(kp) != 1: raise Unsupported('representation of the coefficient store')
        self.KEY = mv[kp[0]]; self.COEF = [a for p, a in mv.items() if p != kp[0]]; self.cpaths = [p for p in mv if p != kp[0]]
        (self.ITER,) = self.U.vals().values()
    # abstract content
    def has(self, q): return z3.And(q >= 0, S(self.U.pos, q) >= 0)
    def node(self, q): return S(self.ITER, q)
    def time(self, q): return S(self.M.K, self.node(q))
    def coef(self, q): return [S(a, self.node(q)) for a in self.COEF]
    def hastime(self, t): return S(self.M.at, t) >= 0
    def keyat(self, t): return S(self.KEY, S(self.M.at, t))       # key of the entry at a stored time
    def same(self, old, q): return z3.And([self.time(q) == old.time(q)] + [a == b for a, b in zip(self.coef(q), old.coef(q))])
    def samecoef(self, old, q): return z3.And([a == b for a, b in zip(self.coef(q), old.coef(q))])
    def is_(self, q, c): return z3.And([a == b for a, b in zip(self.coef(q), c)])
    def trig(self): return [direct(self.U.pos), direct(self.ITER)]
    # representation
    def r1(self, u): return z3.Implies(self.M.member(u), z3.And(S(self.KEY, u) >= 0, S(self.U.pos, S(self.KEY, u)) >= 0, S(self.ITER, S(self.KEY, u)) == u))
    def r2(self, q): return z3.Implies(self.has(q), z3.And(self.M.member(self.node(q)), S(self.KEY, self.node(q)) == q, S(self.iss, q), q < (1 << 62)))
    def assume_rep(self):
        vm = self.vm
        vm.add(self.M.n == self.U.n, True)
        vm.addq(QF(None, None, self.r1, [unless(self.KEY, self.ITER), unless(self.M.K, self.ITER)], name='store'))
        vm.addq(QF(None, None, self.r2, self.trig(), name='store'))
    def rep_facts(self):
        return [self.M.n == self.U.n, QF(None, None, self.r1, [unless(self.KEY, self.ITER), unless(self.M.K, self.ITER)], name='store'), QF(None, None, self.r2, self.trig(), name='store')]
    def oblige_rep(self, what):
        vm = self.vm
        vm.oblige(self.M.n == self.U.n, what + ': as many keys as times', 'rep')
        u = vm.fresh('u', I); vm.oblige(self.r1(u), what + ': every stored entry is reachable by its key', 'rep')
        q = vm.fresh('q', I); vm.oblige(self.r2(q), what + ': every key leads to the entry that carries it', 'rep')
    def bykey(self):
        """the posts below are over keys; the number of entries is that of the time map"""
    def unchanged(self, old, what='content'):
        vm = self.vm; q = vm.fresh('q', I)
        vm.oblige(self.M.n == old.M.n, what + ': same number of entries')
        vm.oblige(self.has(q) == old.has(q), what + ': same keys')
        vm.oblige(z3.Implies(old.has(q), self.same(old, q)), what + ': same times and values')

class Deeper(Exception): pass
class ManVM(MapVM):
    opaque = True; last = True
    def oblige(self, goal, label, kind='post'):
        try: ok = super().oblige(goal, label, kind)
        except PathEnd:
            o = self.obls.get((self.tag, tuple(self.dec), self.obn))
            if o is not None and o.status != 'proved' and not self.last and not self.quiet: raise Deeper()
            raise
        if not ok and not self.last: raise Deeper()
        return ok
    def nonlinear(self, g): return self.last and super().nonlinear(g)
    LEVELS = ((2, False), (2, True), (4, True))
    def verify(self, fid, fn, suffix='', levels=LEVELS):
        name = self.P.refs[fid]['name'].replace('curves::', '') + '(%s)' % ', '.join(self.P.T(t)['s'].replace('curves::', '') for t in self.P.refs[fid]['ptypes']) + suffix
        def run(v):
            v.issued = Root(v.fresh('issued', BA), 'issued'); fn(v)
        for md, deep in levels:      # facts are followed through longer chains only when that is needed
            self.maxdepth, self.deep = md, deep; self.last = (md, deep) == levels[-1]
            for key in [key for key in self.obls if key[0] == name]: del self.obls[key]
            self.cover[name] = 0; self.loopcache = {}; self.nref = 0
            try: ok = self.explore(run, name)
            except Deeper: continue
            finally: self.maxdepth, self.deep, self.last = MapVM.maxdepth, MapVM.deep, True
            if not ok: raise Unsupported('path or time budget exhausted in ' + name)
            if self.cover.get(name, 0) == 0: raise Unsupported('contract of %s is vacuous (no feasible path)' % name)
            break
        obs = [o for key, o in self.obls.items() if key[0] == name]
        self.proved_fns[name] = (len(obs), sum(o.status == 'proved' for o in obs))
    spec_loop = None
    def aligned(self, vals, arr, targets):
        """replacements that express reads of arr at the target indices"""
        out = []; seen = set(); st = [iv(x) if not isinstance(x, z3.ExprRef) else x for x in vals]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.children()[0].eq(arr) and not any(x.children()[1].eq(t) for t in targets):
                for t in targets:
                    if self.entails(x.children()[1] == t): out.append((x, z3.Select(arr, t))); break
            st.extend(x.children())
        return out
    def spec_candidates(self, L, init, outs, k, try_form, try_fact):
        return self.spec_loop(L, init, outs, k, try_form, try_fact) if self.spec_loop else False
    def loop_weak(self, L, outs):
        if any(nm == 'spec' for nm, _ in L['facts']): return False
        return super().loop_weak(L, outs)

class Man:
    """one instantiation of the manager"""
    def __init__(self, vm, coef='double'):
        self.vm = vm; self.P = vm.P
        self.F = Names(vm.P, 'curves::LocalSupport2CoefficientManager<%s>' % coef)
        self.ty = vm.P.strip(vm.P.refs[self.F.get('insertCoefficient', 2)]['cls'])
        self.cty = vm.P.strip(vm.P.refs[self.F.get('insertCoefficient', 2)]['ptypes'][1])
        for k, r in vm.P.refs.items():
            if r['name'] == 'curves::KeyGenerator::getNextKey':
                def c(v, fid, r, obj, vals):
                    q = v.fresh('newkey', I)
                    v.add(z3.And(q >= 0, q < (1 << 62), z3.Not(S(v.issued.load(), q))), True)
                    v.issued.store(z3.Store(v.issued.load(), q, z3.BoolVal(True)))
                    return q
                vm.contracts[k] = c
    def any(self, name='this'):
        v = self.vm; this = Root(v.symbolic(self.ty, name), name, self.ty)
        s = Store(v, this); s.assume_rep(); return this, s
    def coef(self, name='c'):
        v = self.vm; r = Root(v.symbolic(self.cty, name), name, self.cty)
        return r, [x for _, x in v.flat(r.load())]
    def key(self, name='k'):
        q = self.vm.fresh(name, I); self.vm.add(z3.And(q >= 0, q < (1 << 64))); return q
    def find(self, nm, n=None): return self.F.get(nm, n)

C11_MANY = [['insertCoefficients'], ['modifyCoefficientsValuesInBatch'], ['insertCoefficient', 'updateCoefficients'], ['addCoefficientAtEnd', 'modifyCoefficient', 'checkInternalConsistency']]
C11_REST = ['updateCoefficientByKey', 'removeCoefficientWithKey', 'removeCoefficientAtTime', 'clear', 'LocalSupport2CoefficientManager', 'getCoefficientByKey', 'getCoefficientTimeByKey']
C12_JOBS = [['getCoefficientsInRange'], ['getCoefficients', 'equals', 'getTimesInWindow'], ['getKeys', 'appendKeys', 'getTimes', 'getMinTime', 'getMaxTime', 'hasCoefficientAtTime', 'hasCoefficientWithKey', 'size', 'empty', 'getCoefficientsAt', 'coefficientBegin', 'coefficientEnd']]
def verify_C11(vm, only=None):
    m = Man(vm); F = m.F
    def on(nm, n, fn, suffix=''):
        if only is None or nm in only: vm.verify(F.get(nm, n), fn, suffix)
    def call(v, nm, n, this, args): return v.call_user(F.get(nm, n), this, args)
    # ---- single entries
    def insert_post(v, old, new, t, c, key):
        v.oblige(z3.If(old.hastime(t), key == old.keyat(t), z3.Not(S(old.iss, key))), 'an existing time keeps its key, a new time gets a new key')
        v.oblige(new.M.n == z3.If(old.hastime(t), old.M.n, old.M.n + 1), 'one more entry exactly for a new time')
        v.oblige(z3.And(new.has(key), new.time(key) == t, new.is_(key, c)), 'the inserted value is found under its key with its time')
        q = v.fresh('q', I)
        v.oblige(new.has(q) == z3.Or(old.has(q), q == key), 'no other key appears or disappears')
        v.oblige(z3.Implies(z3.And(old.has(q), q != key), new.same(old, q)), 'all other entries are unchanged')
        v.oblige(S(new.iss, q) == z3.Or(S(old.iss, q), z3.And(q == key, z3.Not(old.hastime(t)))), 'no key is used up otherwise') if False else None
        new.oblige_rep('insert')
    def insert_contract(v, fid, r, obj, vals):
        lv = v.lval(obj); old = Store(v, lv); t = v.rval(vals[0]); c = [x for _, x in v.flat(v.rval(vals[1]))]
        lv.store(v.symbolic(m.ty, '!ins')); iss = v.fresh('!iss', BA); key = v.fresh('!key', I)
        v.issued.store(iss)
        new = Store(v, lv); new.assume_rep()
        v.add(z3.And(key >= 0, key < (1 << 62)), True)
        v.add(z3.If(old.hastime(t), key == old.keyat(t), z3.Not(S(old.iss, key))), True)
        v.add(new.M.n == z3.If(old.hastime(t), old.M.n, old.M.n + 1), True)
        v.add(z3.And(new.has(key), new.time(key) == t, new.is_(key, c), new.M.at[t] == new.node(key)), True)
        v.addq(QF(z3.IntVal(0), None, lambda q: z3.And(new.has(q) == z3.Or(old.has(q), q == key), z3.Implies(z3.And(old.has(q), q != key), new.same(old, q))), new.trig() + old.trig(), name='insert frame'))
        v.addq(QF(None, None, lambda q: z3.Implies(S(old.iss, q), S(iss, q)), [direct(iss), direct(old.iss)], name='issued'))
        v.add(S(iss, key), True)
        return key
    def ins(v):
        this, old = m.any(); t = v.fresh('t', R); r, c = m.coef()
        key = v.rval(call(v, 'insertCoefficient', 2, this, [t, r]))
        new = Store(v, this)
        insert_post(v, old, new, t, c, key)
        q = v.fresh('q', I); v.oblige(z3.Implies(S(old.iss, q), S(new.iss, q)), 'no issued key is issued again'); v.oblige(S(new.iss, key), 'the key is recorded as issued')
    on('insertCoefficient', 2, ins)
    def add_end(v, out, bad=False):
        this, old = m.any(); t = v.fresh('t', R); r, c = m.coef()
        last = S(old.M.K, S(old.M.nth, old.M.n - 1))
        ok = z3.Or(old.M.n == 0, t > last)
        v.add(z3.Not(ok) if bad else ok)
        kv = Root(v.svec_fresh(key_t(v), 'keys'), 'keys') if out else None
        k0 = kv.load() if out else None
        if bad: v.abort_ok = True
        call(v, 'addCoefficientAtEnd', 3, this, [t, r, Ptr(kv)])
        if bad: v.oblige(False, 'appending at or before the last time is refused'); return
        new = Store(v, this); key = new.keyat(t)
        v.oblige(z3.And(new.hastime(t), z3.Not(S(old.iss, key))), 'the appended entry has a new key')
        v.oblige(z3.Not(old.hastime(t)), 'nothing was stored at the time of the appended entry')
        insert_post(v, old, new, t, c, key)
        v.oblige(S(new.M.K, S(new.M.nth, new.M.n - 1)) == t, 'the appended entry is the last')
        if out:
            k1 = v.tovec(kv.load()); (a0,), (a1,) = list(k0.lv.values()), list(k1.lv.values())
            v.oblige(k1.n == k0.n + 1, 'one key is reported'); v.oblige(S(a1, k0.n) == key, 'the reported key is that of the new entry')
            j = v.fresh('j', I); v.oblige(z3.Implies(z3.And(j >= 0, j < k0.n), S(a1, j) == S(a0, j)), 'earlier reported keys stay')
    def key_t(v): return v.P.strip(v.P.T(v.P.strip(v.P.T(v.P.strip(v.P.refs[F.get('getKeys', 1)]['ptypes'][0]))['to']))['args'][0]['t'])
    on('addCoefficientAtEnd', 3, lambda v: add_end(v, True), ' with key list')
    on('addCoefficientAtEnd', 3, lambda v: add_end(v, False))
    on('addCoefficientAtEnd', 3, lambda v: add_end(v, False, True), ' refused')
    def upd(v, bad=False):
        this, old = m.any(); k = m.key(); r, c = m.coef()
        v.add(z3.Not(old.has(k)) if bad else old.has(k))
        if bad: v.abort_ok = True
        call(v, 'updateCoefficientByKey', 2, this, [k, r])
        if bad: v.oblige(False, 'updating a missing key is refused'); return
        new = Store(v, this); q = v.fresh('q', I)
        v.oblige(new.M.n == old.M.n, 'same number of entries'); v.oblige(new.has(q) == old.has(q), 'same keys')
        v.oblige(z3.And(new.time(k) == old.time(k), new.is_(k, c)), 'the value is written under its key, at the same time')
        v.oblige(z3.Implies(z3.And(old.has(q), q != k), new.same(old, q)), 'all other entries are unchanged')
        new.oblige_rep('update')
    on('updateCoefficientByKey', 2, upd); on('updateCoefficientByKey', 2, lambda v: upd(v, True), ' refused')
    def move(v, bad=False):
        this, old = m.any(); t = v.fresh('t', R); r, c = m.coef()
        u = v.fresh('it', I); v.add(old.M.member(u)); k = S(old.KEY, u)
        other = z3.And(old.hastime(t), S(old.M.at, t) != u)
        v.add(other if bad else z3.Not(other))
        if bad: v.abort_ok = True
        call(v, 'modifyCoefficient', 3, this, [MIter(Sub(v, this, ('f', old.fM)), u), t, r])
        if bad: v.oblige(False, 'moving onto the time of another entry is refused'); return
        new = Store(v, this); q = v.fresh('q', I)
        v.oblige(new.M.n == old.M.n, 'same number of entries'); v.oblige(new.has(q) == old.has(q), 'same keys')
        v.oblige(z3.And(new.time(k) == t, new.is_(k, c)), 'the entry has the new time and value under its key')
        v.oblige(z3.Implies(z3.And(old.has(q), q != k), new.same(old, q)), 'all other entries are unchanged')
        new.oblige_rep('move')
    on('modifyCoefficient', 3, move); on('modifyCoefficient', 3, lambda v: move(v, True), ' refused')
    def removed(v, old, new, k, t):
        q = v.fresh('q', I)
        v.oblige(new.M.n == old.M.n - 1, 'one entry less')
        v.oblige(new.has(q) == z3.And(old.has(q), q != k), 'exactly the named key disappears')
        v.oblige(z3.Not(new.hastime(t)), 'the removed entry is unreachable by time')
        v.oblige(z3.Implies(z3.And(old.has(q), q != k), new.same(old, q)), 'all other entries are unchanged')
        new.oblige_rep('remove')
    def rmk(v, bad=False):
        this, old = m.any(); k = m.key(); v.add(z3.Not(old.has(k)) if bad else old.has(k))
        t = old.time(k)
        if bad: v.abort_ok = True
        call(v, 'removeCoefficientWithKey', 1, this, [k])
        if bad: v.oblige(False, 'removing a missing key is refused'); return
        removed(v, old, Store(v, this), k, t)
    on('removeCoefficientWithKey', 1, rmk); on('removeCoefficientWithKey', 1, lambda v: rmk(v, True), ' refused')
    def rmt(v, bad=False):
        this, old = m.any(); t = v.fresh('t', R); v.add(z3.Not(old.hastime(t)) if bad else old.hastime(t))
        k = old.keyat(t)
        if bad: v.abort_ok = True
        call(v, 'removeCoefficientAtTime', 1, this, [t])
        if bad: v.oblige(False, 'removing at a time without an entry is refused'); return
        removed(v, old, Store(v, this), k, t)
    on('removeCoefficientAtTime', 1, rmt); on('removeCoefficientAtTime', 1, lambda v: rmt(v, True), ' refused')
    def clr(v):
        this, old = m.any(); call(v, 'clear', 0, this, []); new = Store(v, this); q = v.fresh('q', I); t = v.fresh('t', R)
        v.oblige(z3.And(new.M.n == 0, z3.Not(new.has(q)), z3.Not(new.hastime(t))), 'nothing is reachable after clear'); new.oblige_rep('clear')
    on('clear', 0, clr)
    def ctor(v):
        this = Root(v.uninit_rec(m.ty), 'this', m.ty); v.call_user(F.get('LocalSupport2CoefficientManager', 0), this, [])
        new = Store(v, this); q = v.fresh('q', I); v.oblige(z3.And(new.M.n == 0, z3.Not(new.has(q))), 'a new store is empty'); new.oblige_rep('construction')
    on('LocalSupport2CoefficientManager', 0, ctor)
    def consist(v):
        this, old = m.any(); call(v, 'checkInternalConsistency', 1, this, [z3.BoolVal(False)]); Store(v, this).unchanged(old)
    on('checkInternalConsistency', 1, consist)
    # ---- look-ups by key
    def get(v, nm, bad=False):
        this, old = m.any(); k = m.key(); v.add(z3.Not(old.has(k)) if bad else old.has(k))
        if bad: v.abort_ok = True
        r = v.rval(call(v, nm, 1, this, [k]))
        if bad: v.oblige(False, 'looking up a missing key is refused'); return
        if nm == 'getCoefficientTimeByKey': v.oblige(r == old.time(k), 'the time of the entry with that key')
        else: v.oblige(old.is_(k, [x for _, x in v.flat(r)]), 'the value last written under that key')
        Store(v, this).unchanged(old)
    for nm in ('getCoefficientByKey', 'getCoefficientTimeByKey'):
        on(nm, 1, lambda v, nm=nm: get(v, nm)); on(nm, 1, lambda v, nm=nm: get(v, nm, True), ' refused')
    # ---- many entries
    def vecs(v):
        r = v.P.refs[F.get('insertCoefficients', 3)]
        tt = v.P.T(v.P.strip(r['ptypes'][0]))['args'][0]['t']; ct = v.P.T(v.P.strip(r['ptypes'][1]))['args'][0]['t']
        T = Root(v.svec_fresh(tt, 'times'), 'times'); V = Root(v.svec_fresh(ct, 'values'), 'values')
        return T, V, list(T.load().lv.values())[0], list(V.load().lv.values())
    def many(v, out):
        T, V, ta, va = vecs(v); this, old = m.any(); n = T.load().n; v.add(V.load().n == n)
        kv = Root(v.svec_fresh(key_t(v), 'keys'), 'keys') if out else None
        k0 = kv.load() if out else None
        v.contracts[F.get('insertCoefficient', 2)] = insert_contract
        def last(kk):
            kk = iv(kk); v.add(LASTF(z3.IntVal(0)) == z3.K(R, END), True)
            v.add(z3.Implies(kk >= 0, LASTF(z3.simplify(kk + 1)) == z3.Store(LASTF(kk), S(ta, kk), kk)), True)
            v.add(z3.Implies(kk >= 1, LASTF(kk) == z3.Store(LASTF(z3.simplify(kk - 1)), S(ta, kk - 1), kk - 1)), True)
            return LASTF(kk)
        def clauses(new, kk, keys):
            """the content after inserting the first kk pairs one after the other"""
            L = last(kk)
            def per(q):
                t = new.time(q); l = S(L, t)
                return z3.Implies(new.has(q), z3.And(l >= -1, l < kk, z3.If(l == -1, z3.And(old.has(q), new.samecoef(old, q)), new.is_(q, [S(a, l) for a in va]))))
            fs = [QF(None, None, lambda q: z3.Implies(old.has(q), z3.And(new.has(q), new.time(q) == old.time(q))), new.trig() + old.trig(), name='kept'),
                  QF(None, None, lambda q: z3.Implies(z3.And(new.has(q), z3.Not(old.has(q))), z3.Not(S(old.iss, q))), new.trig() + old.trig(), name='new keys'),
                  QF(None, None, per, new.trig() + old.trig(), name='last'),
                  QF(z3.IntVal(0), iv(kk), lambda j: new.hastime(S(ta, j)), [direct(ta)], always=[z3.simplify(iv(kk) - 1)], name='inserted'),
                  QF(None, None, lambda q: z3.Implies(S(old.iss, q), S(new.iss, q)), [direct(new.iss), direct(old.iss)], name='issued')]
            if keys is not None:
                kn, a1 = keys; (a0,) = k0.lv.values()
                fs += [kn == k0.n + iv(kk), QF(z3.IntVal(0), k0.n, lambda j: S(a1, j) == S(a0, j), [direct(a1)], name='kept keys'),
                       QF(z3.IntVal(0), iv(kk), lambda j: S(a1, z3.simplify(k0.n + j)) == new.keyat(S(ta, j)), [(a1, lambda i: z3.simplify(i - k0.n)), direct(ta)], always=[z3.simplify(iv(kk) - 1)], name='reported keys')]
            return fs
        ri = Root._reg.index(this); ki = Root._reg.index(kv) if out else None; gi = Root._reg.index(v.issued)
        def cand(L, init, outs, k, try_form, try_fact):
            if not any(r[0] == ri for r in L['mod']): return False
            def f(get, kk):
                def leaf(ref, x): 
                    y = get(ref); return x if y is None else y
                sv = this.v; iv_ = v.issued.v
                sub = {p: leaf((ri, p), x) for p, x in v.flat(old.o)}
                fm = v.fresh_maps
                try:
                    o = v.rebuild(old.o, sub); v.fresh_maps = fm
                    v.issued.v = leaf((gi, ()), old.iss)
                    new = Store(v, Root_(o))
                finally: v.issued.v = iv_
                ks = None
                if out:
                    ln = get((ki, (('n',),))); la = get((ki, (('v', list(k0.lv)[0]),)))
                    ks = (k0.n if ln is None else ln, list(k0.lv.values())[0] if la is None else la)
                return new.rep_facts() + clauses(new, kk, ks)
            return try_fact('spec', f)
        v.spec_loop = cand
        try: call(v, 'insertCoefficients', 3, this, [T, V, Ptr(kv)])
        finally: v.spec_loop = None; v.contracts.pop(F.get('insertCoefficient', 2), None)
        new = Store(v, this)
        ks = None
        if out: k1 = v.tovec(kv.load()); ks = (k1.n, list(k1.lv.values())[0])
        for i, y in enumerate(clauses(new, n, ks)):
            lab = ('entries keep key and time', 'added entries have new keys', 'every value is the last one given for its time', 'every given time is stored', 'no issued key is issued again', 'one key per pair is reported', 'earlier reported keys stay', 'the reported keys are those of the entries')[i]
            if isinstance(y, QF): v.oblige_all(y.lo, y.hi, y.fn, lab)
            else: v.oblige(y, lab)
        new.oblige_rep('insert many')
    on('insertCoefficients', 3, lambda v: many(v, True), ' with key list'); on('insertCoefficients', 3, lambda v: many(v, False))
    def batch(v, bad=False):
        T, V, ta, va = vecs(v); this, old = m.any(); n = T.load().n; v.add(V.load().n == n)
        t0 = S(ta, z3.IntVal(0)); u0 = S(old.M.at, t0); r0 = S(old.M.pos, u0)
        if not bad:
            v.add(z3.Implies(n >= 1, z3.And(u0 >= 0, r0 + n <= old.M.n)))
            v.addq(QF(z3.IntVal(0), n, lambda j: S(old.M.K, S(old.M.nth, z3.simplify(r0 + j))) == S(ta, j), [direct(ta), (old.M.nth, lambda i: z3.simplify(i - r0))], name='consecutive times'))
        else:
            # the first time is not stored, or the stored entries end before the batch does, or some time differs from the stored one there
            b = v.fresh('b', I); v.abort_ok = True
            if bad == 'first': v.add(z3.And(n >= 1, u0 < 0))
            if bad == 'end': v.add(z3.And(n >= 1, u0 >= 0, r0 + n > old.M.n))
            if bad == 'time': v.add(z3.And(u0 >= 0, b >= 0, b < n, r0 + n <= old.M.n)); v.add(S(old.M.K, S(old.M.nth, r0 + b)) != S(ta, b))
        call(v, 'modifyCoefficientsValuesInBatch', 2, this, [T, V])
        if bad: v.oblige(False, 'a batch that does not match the stored times is refused'); return
        new = Store(v, this); q = v.fresh('q', I)
        v.oblige(new.M.n == old.M.n, 'same number of entries'); v.oblige(new.has(q) == old.has(q), 'same keys')
        j = v.fresh('j', I); kj = old.keyat(S(ta, j))
        v.oblige(z3.Implies(z3.And(j >= 0, j < n), z3.And(old.hastime(S(ta, j)), new.has(kj), new.time(kj) == S(ta, j), new.is_(kj, [S(a, j) for a in va]))), 'every named entry has its new value')
        rk = S(old.M.pos, old.node(q))
        v.oblige(z3.Implies(old.has(q), new.time(q) == old.time(q)), 'all times are unchanged')
        v.oblige(z3.Implies(z3.And(old.has(q), z3.Or(rk < r0, rk >= r0 + n)), new.same(old, q)), 'all other entries are unchanged')
        new.oblige_rep('batch')
    on('modifyCoefficientsValuesInBatch', 2, batch); [on('modifyCoefficientsValuesInBatch', 2, lambda v, w=w: batch(v, w), ' refused: ' + w) for w in ('first', 'end', 'time')]
    def updm(v, bad=False):
        this, old = m.any(); ct = v.P.strip(v.P.refs[F.get('updateCoefficients', 1)]['ptypes'][0])
        C = Root(v.symbolic(ct, 'given'), 'given', ct); c = C.load(); cv = list(c.vals().values())
        given = lambda q: z3.And(q >= 0, S(c.pos, q) >= 0)
        if bad:
            b = m.key('missing'); v.add(z3.And(given(b), z3.Not(old.has(b)))); v.abort_ok = True
        else: v.addq(QF(None, None, lambda q: z3.Implies(given(q), old.has(q)), [direct(c.pos)], name='given keys are stored'))
        v.addq(QF(z3.IntVal(0), c.n, lambda i: z3.And(S(c.nth, i) >= 0, S(c.nth, i) < (1 << 64)), [direct(c.nth)], name='keys'))
        ri = Root._reg.index(this)
        def cand(L, init, outs, k, try_form, try_fact):
            cp = [(ri, (('f', old.fM), ('map', ('v', p)))) for p in old.cpaths]
            if not any(r in L['mod'] for r in cp): return False
            def f(get, kk):
                fs = []
                for r, a, x0 in zip(cp, cv, old.COEF):
                    y = get(r)
                    if y is None: continue
                    def fn(u, y=y, a=a, x0=x0):
                        q = S(old.KEY, u); done = z3.And(old.M.member(u), S(c.pos, q) >= 0, S(c.pos, q) < iv(kk))
                        return S(y, u) == z3.If(done, S(a, q), S(x0, u))
                    fs.append(QF(None, None, fn, [direct(y)], name='updated'))
                return fs
            return try_fact('spec', f)
        v.spec_loop = cand
        try: call(v, 'updateCoefficients', 1, this, [C])
        finally: v.spec_loop = None
        if bad: v.oblige(False, 'updating a missing key is refused'); return
        new = Store(v, this); q = v.fresh('q', I)
        v.oblige(new.M.n == old.M.n, 'same number of entries'); v.oblige(new.has(q) == old.has(q), 'same keys')
        v.oblige(z3.Implies(given(q), z3.And(new.time(q) == old.time(q), new.is_(q, [S(a, q) for a in cv]))), 'every given key has its new value')
        v.oblige(z3.Implies(z3.And(old.has(q), z3.Not(given(q))), new.same(old, q)), 'all other entries are unchanged')
        new.oblige_rep('update many')
    on('updateCoefficients', 1, updm); on('updateCoefficients', 1, lambda v: updm(v, True), ' refused')
class Root_:
    def __init__(s, v): s.v = v
    def load(s): return s.v

def fill_candidate(v, old, oi):
    """loops that copy the entries of a walk along the store into a map: which keys are there so far"""
    def cand(L, init, outs, k, try_form, try_fact):
        if not any(r[0] == oi for r in L['mod']): return False
        walks = [f[1] for r, f in L['forms'].items() if f[0] == 'walk']
        o0 = Root._reg[oi].v
        if not isinstance(o0, NMap): return False
        for w in walks:
            a, b = w(z3.IntVal(0)), w(z3.IntVal(1))
            if not z3.is_select(a) or not a.children()[0].eq(old.M.nth): continue
            p0 = a.children()[1]; d = const_diff(b.children()[1], p0)
            if d not in (1, -1): continue
            def f(get, kk, p0=p0, d=d):
                g = lambda key: (lambda y: o0.f[key] if y is None else y)(get((oi, (('map', key),))))
                lo, hi = (p0, p0 + iv(kk)) if d > 0 else (p0 - iv(kk) + 1, p0 + 1)
                def inr(q): r = S(old.M.pos, old.node(q)); return z3.And(old.has(q), r >= lo, r < hi)
                pos = g('pos')
                fs = [QF(z3.IntVal(0), None, lambda q: (S(pos, q) >= 0) == z3.Or(S(init[(oi, (('map', 'pos'),))] if (oi, (('map', 'pos'),)) in init else o0.pos, q) >= 0, inr(q)), [direct(pos)], name='filled')]
                for (p, a0), c in zip([(p, a) for p, a in o0.f.items() if isinstance(p, tuple)], old.COEF):
                    y = g(p); x0 = init.get((oi, (('map', p),)), a0)
                    fs.append(QF(z3.IntVal(0), None, (lambda y, x0, c: lambda q: z3.Implies(S(pos, q) >= 0, S(y, q) == z3.If(inr(q), S(c, old.node(q)), S(x0, q))))(y, x0, c), [direct(y), direct(pos)], name='filled'))
                return fs
            if try_fact('spec', f): return True
        return False
    return cand

def verify_C12(vm, only=None):
    m = Man(vm); F = m.F
    def on(nm, n, fn, suffix=''):
        if only is None or nm in only: vm.verify(F.get(nm, n), fn, suffix)
    def call(v, nm, n, this, args): return v.call_user(F.get(nm, n), this, args)
    def outvec(v, nm, n):
        et = v.P.T(v.P.strip(v.P.T(v.P.strip(v.P.refs[F.get(nm, n)]['ptypes'][0]))['to']))['args'][0]['t']
        r = Root(v.svec_fresh(et, 'out'), 'out'); return r, r.load()
    def lists(v, nm, n, what, off=None):
        this, old = m.any(); out, o0 = outvec(v, nm, n)
        call(v, nm, n, this, [Ptr(out)])
        o = v.tovec(out.load()); (a,) = o.lv.values(); base = o0.n if off else z3.IntVal(0)
        v.oblige(o.n == base + old.M.n, 'as many %s as entries%s' % (what, ' are appended' if off else ''))
        val = (lambda u: S(old.M.K, u)) if what == 'times' else (lambda u: S(old.KEY, u))
        j = v.fresh('j', I); i = v.fresh('i', I)
        v.oblige(z3.Implies(z3.And(j >= 0, j < old.M.n), S(a, base + j) == val(S(old.M.nth, j))), '%s listed in the order of the times' % what)
        q = v.fresh('q', I); rk = S(old.M.pos, old.node(q))
        v.oblige(z3.Implies(old.has(q), z3.And(rk >= 0, rk < old.M.n, S(a, base + rk) == (old.time(q) if what == 'times' else q))), 'every entry is listed')
        if what == 'times':
            v.oblige(z3.Implies(z3.And(i >= 0, i < j, j < old.M.n), S(a, base + i) < S(a, base + j)), 'times listed in increasing order')
            v.oblige(z3.Implies(z3.And(j >= 0, j < old.M.n), old.hastime(S(a, base + j))), 'only stored times are listed')
        else:
            v.oblige(z3.Implies(z3.And(j >= 0, j < old.M.n), old.has(S(a, base + j))), 'only stored keys are listed')
            v.oblige(z3.Implies(z3.And(i >= 0, i < j, j < old.M.n), S(a, base + i) != S(a, base + j)), 'no key is listed twice')
        if off:
            (a0,) = o0.lv.values(); v.oblige(z3.Implies(z3.And(j >= 0, j < base), S(a, j) == S(a0, j)), 'what was in the list stays')
        Store(v, this).unchanged(old)
    on('getKeys', 1, lambda v: lists(v, 'getKeys', 1, 'keys')); on('appendKeys', 1, lambda v: lists(v, 'appendKeys', 1, 'keys', True)); on('getTimes', 1, lambda v: lists(v, 'getTimes', 1, 'times'))
    def ends(v, nm, first):
        this, old = m.any(); r = v.rval(call(v, nm, 0, this, []))
        v.oblige(r == z3.If(old.M.n == 0, z3.RealVal(0), S(old.M.K, S(old.M.nth, z3.IntVal(0) if first else old.M.n - 1))), 'the %s stored time, zero when empty' % ('first' if first else 'last'))
        q = v.fresh('q', I); v.oblige(z3.Implies(old.has(q), r <= old.time(q) if first else r >= old.time(q)), 'no stored time lies %s it' % ('before' if first else 'after'))
        Store(v, this).unchanged(old)
    on('getMinTime', 0, lambda v: ends(v, 'getMinTime', True)); on('getMaxTime', 0, lambda v: ends(v, 'getMaxTime', False))
    def memt(v):
        this, old = m.any(); t = v.fresh('t', R); r = bv(v.rval(call(v, 'hasCoefficientAtTime', 1, this, [t])))
        v.oblige(r == old.hastime(t), 'membership by time is exact')
        q = v.fresh('q', I); v.oblige(z3.Implies(z3.And(old.has(q), old.time(q) == t), r), 'an entry at that time is found')
        v.oblige(z3.Implies(r, z3.And(old.has(old.keyat(t)), old.time(old.keyat(t)) == t)), 'found only when an entry has that time'); Store(v, this).unchanged(old)
    on('hasCoefficientAtTime', 1, memt)
    def memk(v):
        this, old = m.any(); k = m.key(); r = bv(v.rval(call(v, 'hasCoefficientWithKey', 1, this, [k])))
        v.oblige(r == old.has(k), 'membership by key is exact'); Store(v, this).unchanged(old)
    on('hasCoefficientWithKey', 1, memk)
    def count(v, nm):
        this, old = m.any(); r = v.rval(call(v, nm, 0, this, []))
        v.oblige(r == old.M.n if nm == 'size' else r == (old.M.n == 0), 'the number of entries'); Store(v, this).unchanged(old)
    on('size', 0, lambda v: count(v, 'size')); on('empty', 0, lambda v: count(v, 'empty'))
    def bracket(v):
        this, old = m.any(); t = v.fresh('t', R); home = Sub(v, this, ('f', old.fM)); n = old.M.n
        a = Root(MIter(home, END), 'a'); b = Root(MIter(home, END), 'b')
        r = bv(v.rval(call(v, 'getCoefficientsAt', 3, this, [t, Ptr(a), Ptr(b)])))
        K = lambda i: S(old.M.K, S(old.M.nth, iv(i)))
        v.oblige(r == z3.And(n >= 2, K(0) <= t, t <= K(n - 1)), 'a pair is found exactly inside the stored range')
        ua, ub = a.load().uid, b.load().uid; pa, pb = S(old.M.pos, ua), S(old.M.pos, ub)
        v.oblige(z3.Implies(r, z3.And(ua >= 0, ub >= 0, pa >= 0, pb == pa + 1, pb < n)), 'the pair is adjacent')
        v.oblige(z3.Implies(r, z3.And(S(old.M.K, ua) <= t, z3.Or(t < S(old.M.K, ub), z3.And(pb == n - 1, t == S(old.M.K, ub))))), 'the closed-open span of the pair contains the time')
        Store(v, this).unchanged(old)
    on('getCoefficientsAt', 3, bracket)
    def window(v):
        this, old = m.any(); out, o0 = outvec(v, 'getTimesInWindow', 3); n = old.M.n; v.add(n >= 1)
        K = lambda i: S(old.M.K, S(old.M.nth, iv(i)))
        t = v.fresh('beg', R); e = v.fresh('end', R); v.add(e == K(n - 1)); v.add(t >= K(0))
        call(v, 'getTimesInWindow', 3, this, [Ptr(out), t, e])
        o = v.tovec(out.load()); (a,) = o.lv.values(); j = v.fresh('j', I); i = v.fresh('i', I); q = v.fresh('q', I)
        c = n - o.n
        v.oblige(z3.And(o.n >= 0, o.n <= n), 'no more times than entries')
        v.oblige(z3.Implies(z3.And(j >= 0, j < o.n), z3.And(S(a, j) == K(c + j), S(a, j) >= t)), 'the listed times are the last stored ones and lie inside the window')
        v.oblige(z3.Implies(z3.And(i >= 0, i < j, j < o.n), S(a, i) < S(a, j)), 'increasing order')
        rk = S(old.M.pos, old.node(q))
        v.oblige(z3.Implies(z3.And(old.has(q), old.time(q) >= t), z3.And(rk >= c, rk < n, S(a, rk - c) == old.time(q))), 'every stored time inside the window is listed')
        Store(v, this).unchanged(old)
    on('getTimesInWindow', 3, window)
    def fill(v, nm):
        nargs = 1 if nm == 'getCoefficients' else 3
        ct = v.P.strip(v.P.T(v.P.strip(v.P.refs[F.get(nm, nargs)]['ptypes'][-1]))['to'])
        this, old = m.any(); out = Root(v.symbolic(ct, 'out'), 'out', ct); o0 = out.load(); n = old.M.n
        K = lambda i: S(old.M.K, S(old.M.nth, iv(i)))
        if nm != 'getCoefficients': s, e = v.fresh('s', R), v.fresh('e', R)
        v.spec_loop = fill_candidate(v, old, Root._reg.index(out))
        try: call(v, nm, nargs, this, ([] if nm == 'getCoefficients' else [s, e]) + [Ptr(out)])
        finally: v.spec_loop = None
        o = out.load(); q = m.key('q'); rk = S(old.M.pos, old.node(q))
        if nm == 'getCoefficients': want = old.has(q)
        else:
            ok = z3.And(n > 0, s <= e, s <= K(n - 1), e >= K(0))
            lo = v.bound(old.M, s, True); hi = v.bound(old.M, e, False)       # first entry after the start; first entry at or after the end
            lo = z3.If(lo > 0, lo - 1, z3.IntVal(0)); hi = z3.If(hi < n, hi, n - 1)
            want = z3.And(ok, old.has(q), rk >= lo, rk <= z3.If(hi >= lo, hi, lo))
        v.oblige((S(o.pos, q) >= 0) == z3.Or(S(o0.pos, q) >= 0, want), 'exactly the keys of the spanned entries are added')
        vs = [a for k, a in o.f.items() if isinstance(k, tuple)]; v0 = [a for k, a in o0.f.items() if isinstance(k, tuple)]
        v.oblige(z3.Implies(want, z3.And([S(a, q) == x for a, x in zip(vs, old.coef(q))])), 'with their values')
        v.oblige(z3.Implies(z3.And(S(o0.pos, q) >= 0, z3.Not(want)), z3.And([S(a, q) == S(b, q) for a, b in zip(vs, v0)])), 'everything else in the map stays')
        Store(v, this).unchanged(old)
    on('getCoefficients', 1, lambda v: fill(v, 'getCoefficients')); on('getCoefficientsInRange', 3, lambda v: fill(v, 'getCoefficientsInRange'))
    def eq(v, same):
        a, A = m.any('this'); b, Bv = m.any('other'); tol = v.fresh('tol', R)
        if same:
            v.add(A.M.n == Bv.M.n)
            v.addq(QF(z3.IntVal(0), A.M.n, lambda j: z3.And([S(x, S(A.M.nth, j)) == S(y, S(Bv.M.nth, j)) for x, y in zip([A.M.K, A.KEY] + A.COEF, [Bv.M.K, Bv.KEY] + Bv.COEF)]), [direct(A.M.nth), direct(Bv.M.nth)], name='same content'))
        r = bv(v.rval(call(v, 'equals', 2, a, [b, tol])))
        if same: v.oblige(r, 'stores with the same content are equal'); return
        q = v.fresh('q', I)
        v.oblige(z3.Implies(z3.And(r, A.has(q)), z3.And(Bv.has(q), A.time(q) == Bv.time(q), A.is_(q, Bv.coef(q)))), 'equal stores have the same entries')
        v.oblige(z3.Implies(r, A.M.n == Bv.M.n), 'equal stores have the same size')
    on('equals', 2, lambda v: eq(v, False), ' implies same content'); on('equals', 2, lambda v: eq(v, True), ' of same content')
    def iters(v, fid):
        this, old = m.any(); r = v.rval(v.call_user(fid, this, []))
        first = 'Begin' in v.P.refs[fid]['name']
        v.oblige(r.uid == (S(old.M.nth, z3.IntVal(0)) if first else END), 'iteration %s at the %s' % (('starts', 'earliest entry') if first else ('ends', 'end')))
    for nm in ('coefficientBegin', 'coefficientEnd'):
        for i, fid in enumerate(F.all(nm, 0)):
            if only is None or nm in only: vm.verify(fid, lambda v, fid=fid: iters(v, fid), ' const' * i)
