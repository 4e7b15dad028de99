"""Contracts of CubicHermiteE3Curve (C14) on top of the coefficient store: the curve is the list of its
knots in time order (time, position, velocity), of any length."""
from spec_manager import *

class Herm:
    def __init__(self, vm):
        self.vm = vm; self.P = vm.P
        self.F = Names(vm.P, 'curves::CubicHermiteE3Curve')
        r = vm.P.refs[self.F.get('evaluate', 2)]
        self.ty = vm.P.strip(r['cls'])
        self.m = Man(vm, 'HermiteE3Knot')
        self.MF = self.m.F
    def store(self, lv):
        o = lv.load(); c = [k for k, x in o.f.items() if isinstance(x, Rec) and self.P.strip(x.t) == self.m.ty]
        if len(c) != 1: raise Unsupported('representation of the Hermite curve')
        s = Store(self.vm, Sub(self.vm, lv, ('f', c[0]))); return s
    def any(self):
        v = self.vm; this = Root(v.symbolic(self.ty, 'this'), 'this', self.ty); s = self.store(this); s.assume_rep(); return this, s
    def knots(self, s): return Knots(self.vm, s)
    def split(self, s):
        pos = [a for p, a in zip(s.cpaths, s.COEF) if any('osition' in str(x) for x in p)]; vel = [a for p, a in zip(s.cpaths, s.COEF) if any('elocity' in str(x) for x in p)]
        if len(pos) != 3 or len(vel) != 3: raise Unsupported('representation of the Hermite knots')
        return pos, vel
class Knots:
    """knots of a store by rank"""
    def __init__(self, h, s):
        self.n = s.M.n; self.s = s; pos, vel = h.split(s); self.pos, self.vel = pos, vel
        self.node = lambda j: S(s.M.nth, iv(j))
    def t(self, j): return S(self.s.M.K, self.node(j))
    def x(self, j): return [S(a, self.node(j)) for a in self.pos]
    def d(self, j): return [S(a, self.node(j)) for a in self.vel]

def increasing(v, ta, n):
    v.addpair(ta, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), S(ta, i) < S(ta, j)))

def vec3(v, x):
    if isinstance(x, Lazy): x = v.force(x)
    if not isinstance(x, Mat): raise Unsupported('vector value')
    return list(x.e)

def append_contract(h):
    m = h.m
    def c(v, fid, r, obj, vals):
        lv = v.lval(obj); old = Store(v, lv); t = v.rval(vals[0]); cf = [x for _, x in v.flat(v.rval(vals[1]))]
        n = old.M.n
        v.oblige(z3.Or(n == 0, t > S(old.M.K, S(old.M.nth, n - 1))), 'times are inserted in increasing order', 'pre')
        lv.store(v.symbolic(m.ty, '!ins')); iss = v.fresh('!iss', BA); v.issued.store(iss)
        new = Store(v, lv); new.assume_rep()
        key = S(new.KEY, S(new.M.nth, n))
        v.add(z3.And(new.M.n == n + 1, z3.Not(S(old.iss, key)), S(iss, key)), True)
        for q in append_facts(v, old, new, t, cf): v.addq(q) if isinstance(q, QF) else v.add(q, True)
        return key
    return c
def append_facts(v, old, new, t, cf):
    n = old.M.n; last = S(new.M.nth, n)
    def keep(i):
        a, b = S(new.M.nth, i), S(old.M.nth, i)
        return z3.And([S(x, a) == S(y, b) for x, y in zip([new.M.K, new.KEY] + new.COEF, [old.M.K, old.KEY] + old.COEF)])
    return [z3.And([S(new.M.K, last) == t] + [S(a, last) == x for a, x in zip(new.COEF, cf)]),
            QF(z3.IntVal(0), n, keep, [direct(new.M.nth), direct(old.M.nth)], name='appended'),
            QF(None, None, lambda q: z3.Implies(S(old.iss, q), S(new.iss, q)), [direct(new.iss), direct(old.iss)], name='issued')]

def seq_facts(new, ta, va, kk, keys=None):
    """the store holds exactly the first kk pairs, in order"""
    nth = new.M.nth; kk = iv(kk)
    def per(j):
        u = S(nth, j); return z3.And([S(new.M.K, u) == S(ta, j)] + [S(a, u) == S(x, j) for a, x in zip(new.COEF, va)])
    fs = [new.M.n == kk, QF(z3.IntVal(0), kk, per, [direct(nth), direct(ta)], always=[z3.simplify(kk - 1)], name='pairs')]
    if keys is not None:
        kn, a1, k0n, a0 = keys
        fs += [kn == k0n + kk, QF(z3.IntVal(0), k0n, lambda j: S(a1, j) == S(a0, j), [direct(a1)], name='kept keys'),
               QF(z3.IntVal(0), kk, lambda j: S(a1, z3.simplify(k0n + j)) == S(new.KEY, S(nth, j)), [(a1, lambda i: z3.simplify(i - k0n)), direct(nth)], always=[z3.simplify(kk - 1)], name='reported keys')]
    return fs
SEQ = ('as many entries as pairs', 'entry number j has time and value number j', 'one key per pair is reported', 'earlier reported keys stay', 'the reported keys are those of the entries')

def seq_contract(h):
    """insertCoefficients on an empty store with increasing times"""
    m = h.m
    def c(v, fid, r, obj, vals):
        lv = v.lval(obj); old = Store(v, lv); T = v.tovec(v.rval(vals[0])); V = v.tovec(v.rval(vals[1])); kp = v.rval(vals[2])
        (ta,) = T.lv.values(); va = list(V.lv.values()); v.fit_lv = dict(V.lv); v.fit_vel = [a for p, a in V.lv.items() if any('elocity' in str(x) for x in p)]
        v.oblige(old.M.n == 0, 'the earlier curve is dropped before the new one is stored', 'pre')
        v.oblige(T.n == V.n, 'one coefficient per time', 'pre')
        i, j = v.fresh('i', I), v.fresh('j', I)
        v.oblige(z3.Implies(z3.And(i >= 0, i < j, j < T.n), S(ta, i) < S(ta, j)), 'times are inserted in increasing order', 'pre')
        lv.store(v.symbolic(m.ty, '!seq')); v.issued.store(v.fresh('!iss', BA)); new = Store(v, lv); new.assume_rep()
        keys = None
        if kp.lv is not None:
            k0 = v.tovec(kp.lv.load()); k1 = v.svec_fresh(k0.et, '!keys'); kp.lv.store(k1)
            keys = (k1.n, list(k1.lv.values())[0], k0.n, list(k0.lv.values())[0])
        for q in seq_facts(new, ta, va, T.n, keys): v.addq(q) if isinstance(q, QF) else v.add(q, True)
        v.addq(QF(None, None, lambda q: z3.Implies(S(old.iss, q), S(new.iss, q)), [direct(new.iss), direct(old.iss)], name='issued'))
        return None
    return c

def at_contract(h):
    """getCoefficientsAt: the adjacent pair around a time (C12)"""
    def c(v, fid, r, obj, vals):
        lv = v.lval(obj); st = Store(v, lv); n = st.M.n; t = v.rval(vals[0]); K = lambda i: S(st.M.K, S(st.M.nth, iv(i)))
        pa, pb = v.rval(vals[1]), v.rval(vals[2])
        if pa.lv is None or pb.lv is None: raise Unsupported('null iterator argument')
        inside = z3.And(n >= 2, K(0) <= t, t <= K(n - 1))
        home = Sub(v, st.lv, ('f', st.fM))
        if v.decide(inside):
            i = v.fresh('!pair', I); ua, ub = S(st.M.nth, i), S(st.M.nth, z3.simplify(i + 1))
            v.add(z3.And(i >= 0, i + 1 < n, S(st.M.K, ua) <= t, z3.Or(t < S(st.M.K, ub), z3.And(i + 1 == n - 1, t == S(st.M.K, ub)))), True)
            v.add(S(st.M.K, ua) < S(st.M.K, ub), True)     # from the order of the map
            pa.lv.store(MIter(home, ua)); pb.lv.store(MIter(home, ub)); return z3.BoolVal(True)
        pa.lv.store(MIter(home, v.fresh('!a', I))); pb.lv.store(MIter(home, v.fresh('!b', I))); return z3.BoolVal(False)
    return c

def cubic(K, i, t, k):
    """value and derivatives of the cubic through knots i, i+1 with their slopes, at time t"""
    u = (t - K.t(i)) / (K.t(i + 1) - K.t(i)); hh = K.t(i + 1) - K.t(i)
    out = []
    for x0, x1, m0, m1 in zip(K.x(i), K.x(i + 1), K.d(i), K.d(i + 1)):
        c1 = hh * m0; c2 = 3 * (x1 - x0) - hh * (2 * m0 + m1); c3 = 2 * (x0 - x1) + hh * (m0 + m1)
        out.append((x0 + c1 * u + c2 * u * u + c3 * u * u * u, (c1 + 2 * c2 * u + 3 * c3 * u * u) / hh, (2 * c2 + 6 * c3 * u) / (hh * hh))[k])
    return out

def store_jobs(h, on):
    """contracts of the store functions the curve relies on"""
    MF = h.MF; m = h.m
    # ---- the store of this curve
    def ins(v):
        this, old = m.any(); t = v.fresh('t', R); r, c = m.coef(); n = old.M.n
        v.add(z3.Or(n == 0, t > S(old.M.K, S(old.M.nth, n - 1))))
        key = v.rval(v.call_user(MF.get('insertCoefficient', 2), this, [t, r])); new = Store(v, this)
        v.oblige(z3.And(new.M.n == n + 1, key == S(new.KEY, S(new.M.nth, n)), z3.Not(S(old.iss, key)), S(new.iss, key)), 'one more entry, with a new key')
        for q, lab in zip(append_facts(v, old, new, t, c), ('the new entry is the last', 'earlier entries stay in place', 'no issued key is issued again')):
            v.oblige_all(q.lo, q.hi, q.fn, lab) if isinstance(q, QF) else v.oblige(q, lab)
        new.oblige_rep('append')
    on('store', MF.get('insertCoefficient', 2), ins, ' after the last')
    def vecs(v):
        r = v.P.refs[MF.get('insertCoefficients', 3)]
        tt = v.P.T(v.P.strip(r['ptypes'][0]))['args'][0]['t']; ct = v.P.T(v.P.strip(r['ptypes'][1]))['args'][0]['t']
        T = Root(v.svec_fresh(tt, 'times'), 'times'); V = Root(v.svec_fresh(ct, 'values'), 'values')
        (ta,) = T.load().lv.values(); increasing(v, ta, T.load().n)
        return T, V, ta, list(V.load().lv.values())
    def key_t(v): return v.P.strip(v.P.T(v.P.strip(v.P.T(v.P.strip(v.P.refs[MF.get('insertCoefficients', 3)]['ptypes'][2]))['to']))['args'][0]['t'])
    def seq(v, out):
        T, V, ta, va = vecs(v); this, old = m.any(); n = T.load().n; v.add(V.load().n == n); v.add(old.M.n == 0)
        kv = Root(v.svec_fresh(key_t(v), 'keys'), 'keys') if out else None; k0 = kv.load() if out else None
        ri = Root._reg.index(this); ki = Root._reg.index(kv) if out else None; gi = Root._reg.index(v.issued)
        def cand(L, init, outs, k, try_form, try_fact):
            if not any(r[0] == ri for r in L['mod']): return False
            def f(get, kk):
                leaf = lambda ref, x: (lambda y: x if y is None else y)(get(ref))
                sub = {p: leaf((ri, p), x) for p, x in v.flat(old.o)}; iv_ = v.issued.v; fm = v.fresh_maps
                try:
                    o = v.rebuild(old.o, sub); v.fresh_maps = fm; v.issued.v = leaf((gi, ()), old.iss); new = Store(v, Root_(o))
                finally: v.issued.v = iv_
                ks = None
                if out:
                    a0 = list(k0.lv.values())[0]
                    ks = (leaf((ki, (('n',),)), k0.n), leaf((ki, (('v', list(k0.lv)[0]),)), a0), k0.n, a0)
                return new.rep_facts() + seq_facts(new, ta, va, kk, ks) + [QF(None, None, lambda q: z3.Implies(S(old.iss, q), S(new.iss, q)), [direct(new.iss), direct(old.iss)], name='issued')]
            return try_fact('spec', f)
        v.spec_loop = cand; v.contracts[MF.get('insertCoefficient', 2)] = append_contract(h)
        try: v.call_user(MF.get('insertCoefficients', 3), this, [T, V, Ptr(kv)])
        finally: v.spec_loop = None; v.contracts.pop(MF.get('insertCoefficient', 2), None)
        new = Store(v, this); ks = None
        if out:
            k1 = v.tovec(kv.load()); ks = (k1.n, list(k1.lv.values())[0], k0.n, list(k0.lv.values())[0])
        for q, lab in zip(seq_facts(new, ta, va, n, ks), SEQ):
            v.oblige_all(q.lo, q.hi, q.fn, lab) if isinstance(q, QF) else v.oblige(q, lab)
        new.oblige_rep('insert many')
        q = v.fresh('q', I); v.oblige(z3.Implies(S(old.iss, q), S(new.iss, q)), 'no issued key is issued again')
    on('store', MF.get('insertCoefficients', 3), lambda v: seq(v, True), ' into an empty store, with key list'); on('store', MF.get('insertCoefficients', 3), lambda v: seq(v, False), ' into an empty store')
    def bracket(v):
        this, old = m.any(); t = v.fresh('t', R); home = Sub(v, this, ('f', old.fM)); n = old.M.n
        a = Root(MIter(home, END), 'a'); b = Root(MIter(home, END), 'b')
        r = bv(v.rval(v.call_user(MF.get('getCoefficientsAt', 3), this, [t, Ptr(a), Ptr(b)])))
        K = lambda i: S(old.M.K, S(old.M.nth, iv(i)))
        v.oblige(r == z3.And(n >= 2, K(0) <= t, t <= K(n - 1)), 'a pair is found exactly inside the stored range')
        ua, ub = a.load().uid, b.load().uid; pa, pb = S(old.M.pos, ua), S(old.M.pos, ub)
        v.oblige(z3.Implies(r, z3.And(ua >= 0, ub >= 0, pa >= 0, pb == pa + 1, pb < n, S(old.M.nth, pa) == ua, S(old.M.nth, pb) == ub)), 'the pair is adjacent')
        v.oblige(z3.Implies(r, z3.And(S(old.M.K, ua) <= t, S(old.M.K, ua) < S(old.M.K, ub), z3.Or(t < S(old.M.K, ub), z3.And(pb == n - 1, t == S(old.M.K, ub))))), 'the closed-open span of the pair contains the time')
        Store(v, this).unchanged(old)
    on('store', MF.get('getCoefficientsAt', 3), bracket)

def verify_C14(vm, only=None):
    h = Herm(vm); F = h.F; MF = h.MF; m = h.m
    vt = vm.P.strip(vm.P.refs[F.get('evaluate', 2)]['ptypes'][0])
    def on(group, fid, fn, suffix=''):
        if only is None or group in only: vm.verify(fid, fn, suffix, ManVM.LEVELS[1:2] if group.startswith('fit') else ManVM.LEVELS)
    def call(v, nm, n, this, args): return v.call_user(F.get(nm, n), this, args)
    def key_t(v): return v.P.strip(v.P.T(v.P.strip(v.P.T(v.P.strip(v.P.refs[MF.get('insertCoefficients', 3)]['ptypes'][2]))['to']))['args'][0]['t'])
    store_jobs(h, on)
    # ---- queries
    def query(v, k):
        """k = 0: value, 1, 2: derivatives"""
        this, s = h.any(); K = Knots(h, s); n = K.n; t = v.fresh('t', R); out = Root(v.symbolic(vt, 'out'), 'out', vt); o0 = out.load()
        v.contracts[MF.get('getCoefficientsAt', 3)] = at_contract(h)
        try:
            if k == 0: r = call(v, 'evaluate', 2, this, [out, t])
            elif k == 3: r = call(v, 'evaluateLinearAcceleration', 2, this, [out, t])
            else: r = call(v, 'evaluateDerivative', 3, this, [out, t, z3.IntVal(k)])
        finally: v.contracts.pop(MF.get('getCoefficientsAt', 3), None)
        if k == 3: k = 2
        r = bv(v.rval(r)); inside = z3.And(n >= 1, K.t(0) <= t, t <= K.t(n - 1))
        v.oblige(z3.Implies(r, inside), 'queries outside the time range are refused')
        v.oblige(z3.Implies(z3.And(inside, n >= 2) if k == 2 else inside, r), 'queries inside the time range succeed')
        Store(v, h.store(this).lv).unchanged(s, 'the curve')
        if not v.decide(r): return
        val = vec3(v, out.load())
        if v.decide(n == 1):
            if k < 2: v.oblige(z3.And([a == b for a, b in zip(val, (K.x if k == 0 else K.d)(0))]), 'a single knot is reproduced')
            return
        i = v.fresh('span', I); v.add(z3.And(i >= 0, i + 1 < n, K.t(i) <= t, z3.Or(t < K.t(i + 1), z3.And(i + 1 == n - 1, t == K.t(i + 1)))), True)
        v.add(K.t(i) < K.t(i + 1), True)
        subs = v.aligned(val, s.M.nth, [i, z3.simplify(i + 1)])
        for a, b in zip(val, cubic(K, i, t, k)): v.oblige_poly(a, b, ('the value is that of the cubic between the surrounding knots', 'the first derivative is that of the cubic between the surrounding knots', 'the second derivative is that of the cubic between the surrounding knots')[k], subs=subs)
        # at the knots
        if k < 2:
            want = K.x if k == 0 else K.d; what = 'passes through its knots' if k == 0 else 'has the stored slope at its knots'
            for e, (j, lab) in enumerate(((i, 'left'), (z3.simplify(i + 1), 'right'))):
                def f(j=j, lab=lab):
                    v.add(t == K.t(j), True)
                    for a, b in zip(cubic(K, i, K.t(j), k), want(j)): v.oblige_poly(a, b, '%s (%s end)' % (what, lab), kind='lemma')
                v.scoped_end(f)
    on('query', F.get('evaluate', 2), lambda v: query(v, 0)); on('query', F.get('evaluateDerivative', 3), lambda v: query(v, 1), ' of order 1')
    on('query', F.get('evaluateDerivative', 3), lambda v: query(v, 2), ' of order 2'); on('query', F.get('evaluateLinearAcceleration', 2), lambda v: query(v, 3))
    def orders(v):
        this, s = h.any(); t = v.fresh('t', R); out = Root(v.symbolic(vt, 'out'), 'out', vt); o = v.fresh('order', I); v.add(z3.And(o >= 0, o < (1 << 32), o != 1, o != 2))
        r = bv(v.rval(call(v, 'evaluateDerivative', 3, this, [out, t, o]))); v.oblige(z3.Not(r), 'other derivative orders are refused'); h.store(this).unchanged(s, 'the curve')
    on('query', F.get('evaluateDerivative', 3), orders, ' of another order')
    def ends(v, nm):
        this, s = h.any(); K = Knots(h, s); n = K.n; r = v.rval(call(v, nm, 0, this, []))
        if nm == 'size': v.oblige(r == n, 'the number of knots')
        elif nm == 'isEmpty': v.oblige(bv(r) == (n == 0), 'empty exactly without knots')
        else: v.oblige(z3.Implies(n >= 1, r == K.t(0 if nm == 'getMinTime' else n - 1)), 'the %s knot time' % ('first' if nm == 'getMinTime' else 'last'))
        h.store(this).unchanged(s, 'the curve')
    for nm in ('size', 'isEmpty', 'getMinTime', 'getMaxTime'): on('query', F.get(nm, 0), lambda v, nm=nm: ends(v, nm))
    def clr(v):
        this, s = h.any(); call(v, 'clear', 0, this, []); new = h.store(this); v.oblige(new.M.n == 0, 'no knots after clear'); new.oblige_rep('clear')
    on('query', F.get('clear', 0), clr)
    def ctor(v):
        this = Root(v.uninit_rec(h.ty), 'this', h.ty); v.call_user(F.get('CubicHermiteE3Curve', 0), this, []); new = h.store(this); v.oblige(new.M.n == 0, 'a new curve has no knots'); new.oblige_rep('construction')
    on('query', F.get('CubicHermiteE3Curve', 0), ctor)
    # ---- fits
    def data(v, out):
        r = v.P.refs[F.get('fitCurve', 3)]
        tt = v.P.T(v.P.strip(r['ptypes'][0]))['args'][0]['t']; ct = v.P.T(v.P.strip(r['ptypes'][1]))['args'][0]['t']
        T = Root(v.svec_fresh(tt, 'times'), 'times'); V = Root(v.svec_fresh(ct, 'values'), 'values'); n = T.load().n; v.add(V.load().n == n)
        (ta,) = T.load().lv.values(); increasing(v, ta, n)
        kv = Root(v.svec_fresh(key_t(v), 'keys'), 'keys') if out else None
        return T, V, n, ta, list(V.load().lv.values()), kv
    def fit(v, how, out):
        T, V, n, ta, xa, kv = data(v, out); k0 = kv.load() if out else None
        this, old = h.any()
        ct = v.P.strip(v.P.refs[F.get('fitCurveWithDerivatives', 5)]['ptypes'][2])
        v.contracts[MF.get('insertCoefficients', 3)] = seq_contract(h)
        z = z3.RealVal(0); d0 = d1 = [z] * 3; per = False
        try:
            if how == 'given':
                a, b = Root(v.symbolic(ct, 'd0'), 'd0', ct), Root(v.symbolic(ct, 'd1'), 'd1', ct); d0, d1 = vec3(v, a.load()), vec3(v, b.load())
                call(v, 'fitCurveWithDerivatives', 5, this, [T, V, a, b, Ptr(kv)])
            elif how == 'plain': call(v, 'fitCurve', 3, this, [T, V, Ptr(kv)])
            else:
                v.add(n >= 2)
                for x in xa: v.add(S(x, n - 1) == S(x, z3.IntVal(0)))
                per = True
                call(v, 'fitPeriodicCurve', 3, this, [T, V, Ptr(kv)])
        finally: v.contracts.pop(MF.get('insertCoefficients', 3), None)
        new = h.store(this); K = Knots(h, new); new.oblige_rep('fit')
        v.oblige(K.n == n, 'one knot per position')
        j = v.fresh('j', I)
        v.oblige(z3.Implies(z3.And(j >= 0, j < n), z3.And([K.t(j) == S(ta, j)] + [a == S(x, j) for a, x in zip(K.x(j), xa)])), 'every knot has its time and position')
        one = z3.IntVal(1)
        if per:
            span = (S(ta, one) - S(ta, z3.IntVal(0))) + (S(ta, n - 1) - S(ta, n - 2))
            d0 = d1 = [(S(x, one) - S(x, n - 2)) / span for x in xa]
        def slopes(j, want, label):
            for a, va, b in zip(K.d(j), v.fit_vel, want):
                y = v.unclamp(v.row(va, iv(j)))
                v.oblige(a == y, label + ': stored as computed', 'lemma'); v.oblige_poly(y, b, label)
        def first():
            v.add(n >= 1, True); slopes(0, d0, 'the first knot has the boundary slope')
        v.scoped_end(first)
        def last():
            v.add(n >= 2, True); slopes(z3.simplify(n - 1), d1, 'the last knot has the boundary slope')
        v.scoped_end(last)
        def inner():
            j = v.fresh('inner', I); v.add(z3.And(j >= 1, j + 1 < n), True)
            jl, jr = z3.simplify(j - 1), z3.simplify(j + 1); v.add(S(ta, jl) < S(ta, jr), True)
            slopes(j, [(S(x, jr) - S(x, jl)) / (S(ta, jr) - S(ta, jl)) for x in xa], 'inner knots have the central-difference slope')
        v.scoped_end(inner)
        if out:
            k1 = v.tovec(kv.load()); (a1,) = k1.lv.values(); (a0,) = k0.lv.values(); i = v.fresh('i', I)
            v.oblige(k1.n == k0.n + n, 'one key per position is reported'); v.oblige(z3.Implies(z3.And(j >= 0, j < k0.n), S(a1, j) == S(a0, j)), 'earlier reported keys stay')
            v.oblige(z3.Implies(z3.And(j >= 0, j < n), S(a1, k0.n + j) == S(new.KEY, K.node(j))), 'the reported keys are those of the knots')
            v.oblige(z3.Implies(z3.And(i >= 0, i < j, j < n), S(a1, k0.n + i) != S(a1, k0.n + j)), 'reported keys are distinct')
    for how in ('given', 'plain', 'periodic'):
        nm, k = {'given': ('fitCurveWithDerivatives', 5), 'plain': ('fitCurve', 3), 'periodic': ('fitPeriodicCurve', 3)}[how]
        for out in (False, True): on('fit ' + how, F.get(nm, k), lambda v, how=how, out=out: fit(v, how, out), ' with key list' if out else '')
C14_JOBS = [['fit given'], ['fit plain'], ['fit periodic'], ['store'], ['query']]
