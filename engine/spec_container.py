"""Contracts of PolynomialSpline<N> and PolynomialSplineContainer<N>."""
from ded import *

POSF = {}
def uf(n, which):
    """uninterpreted: value of the polynomial (which=0), its first and second derivative, at a time"""
    key = (n, which)
    if key not in POSF: POSF[key] = z3.Function('P%d_%d' % (which, n), *([R] * (n + 2)), R)
    return POSF[key]
def clamp(t, d): return z3.If(t <= d, z3.If(t >= 0, t, z3.RealVal(0)), z3.If(d >= 0, d, z3.RealVal(0)))
def poly(cs, t, which):
    """sum a_i t^i (highest power first) and derivatives"""
    n = len(cs) - 1; s = z3.RealVal(0); first = True
    for i, c in enumerate(cs):
        p = n - i; f = 1
        for w in range(which): f *= (p - w)
        if p < which: continue
        term = c if f == 1 else z3.RealVal(f) * c
        for _ in range(p - which): term = term * t
        s = term if first else s + term; first = False
    return s

GET = ('getPositionAtTime', 'getVelocityAtTime', 'getAccelerationAtTime')
class Names:
    """function ids of one instantiation"""
    def __init__(self, P, cls):
        self.P = P; self.cls = cls; self.f = {}
        for k, r in P.refs.items():
            if k in P.funcs and r['name'].startswith(cls + '::'): self.f.setdefault(r['name'][len(cls) + 2:], []).append(k)
    def get(self, nm, nparams=None, opt=False):
        c = [k for k in self.f.get(nm, []) if nparams is None or len(self.P.refs[k]['ptypes']) == nparams]
        if not c:
            if opt: return None
            raise Unsupported('function %s::%s not found' % (self.cls, nm))
        return c[0]
    def all(self, nm, nparams=None): return [k for k in self.f.get(nm, []) if nparams is None or len(self.P.refs[k]['ptypes']) == nparams]

class Con:
    """view of a container object in the current state"""
    def __init__(self, vm, lv, N, F, SF):
        self.vm = vm; self.N = N; self.F = F
        v = lv.load()
        self.v = v
        self.vec = v.f['splines_']
        if isinstance(self.vec, CVec): self.vec = vm.svec_of(self.vec) if self.vec.e else SVec(z3.IntVal(0), self.vec.et, {p: z3.K(I, x if not isinstance(x, z3.ArithRef) else (z3.RealVal(0) if x.sort() == R else z3.IntVal(0))) for p, x in vm.flat(vm.proto(self.vec.et))})
        self.n = self.vec.n
        self.now = v.f['containerTime_']; self.off = v.f['timeOffset_']; self.dur = v.f['containerDuration_']; self.idx = v.f['activeSplineIdx_']
        self.D = self.vec.lv[(('f', 'duration_'),)]
        self.C = [self.vec.lv[(('f', 'coefficients_'), ('i', c))] for c in range(N + 1)]
    def S(self, i): return SUM(self.D, z3.simplify(iv(i)))
    def coef(self, i): return [sel(a, i) for a in self.C]
    def val(self, which, i, t):
        """value of segment i at local time t (contract of the spline getters)"""
        return self.vm.splineval(self.N, which, self.coef(i), sel(self.D, i), t)
    def active(self, k, t):
        return z3.And(k >= 0, k < self.n, z3.Or(k == 0, t >= self.S(k)), z3.Or(k == self.n - 1, t < self.S(k + 1)))
    def base(self):
        """assume the part of the invariant about durations"""
        self.vm.set_nonneg(self.D, self.n)
        self.vm.add(self.dur == self.S(self.n), True)
    def play(self):
        n, S = self.n, self.S
        return z3.If(n == 0, z3.And(self.idx == 0, self.off == 0),
            z3.Or(z3.And(self.idx >= 0, self.idx < n, self.off == S(self.idx), z3.Or(self.idx == 0, self.now >= S(self.idx)), z3.Or(self.now < S(self.idx + 1))),
                  z3.And(self.now >= S(n), z3.Or(self.idx == n - 1, self.idx == n), self.off == S(n - 1))))
    def oblige_inv(self, what, play=True):
        vm = self.vm
        vm.oblige_all(z3.IntVal(0), self.n, lambda j: z3.Select(self.D, j) >= 0, what + ': durations stay non-negative', 'rep')
        vm.set_nonneg(self.D, self.n)
        vm.oblige(self.dur == self.S(self.n), what + ': total duration is the sum of the segment durations', 'rep')
        if play: vm.oblige(self.play(), what + ': active segment, its start and the playback time agree', 'rep')

class CVM(DVM):
    """DVM with the container and spline contracts"""
    exact = False
    def splineval(self, N, which, cs, d, t):
        tc = z3.simplify(clamp(t, d))
        if self.exact: return poly(cs, self.clamped(t, d), which)
        return uf(N, which)(*cs, tc)
    def clamped(self, t, d):
        """clamp(t,d) as a simple term when the path decides it"""
        if self.entails(z3.And(t >= 0, t <= d)): return t
        if self.entails(z3.And(t >= d, d >= 0)): return d
        if self.entails(z3.And(t <= 0)): return z3.RealVal(0)
        c = self.fresh('clamp', R); self.add(c == clamp(t, d), True); return c
    def spline_contracts(self, N):
        SF = Names(self.P, 'curves::PolynomialSpline<%d>' % N)
        for w, g in enumerate(GET):
            for fid in SF.all(g):
                def c(vm, fid, r, obj, vals, w=w):
                    s = vm.rval(obj); t = vm.rval(vals[0])
                    d = s.f['duration_']; cs = list(s.f['coefficients_'].e)
                    vm.oblige(d >= 0, 'precondition of %s: duration >= 0' % r['short'], 'pre')
                    return vm.splineval(N, w, cs, d, t)
                self.contracts[fid] = c
    def unclamp(self, t):
        """t with the conditionals the path decides resolved"""
        cache = {}
        def go(x):
            if x.get_id() in cache: return cache[x.get_id()][1]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() == R:
                c, a, b = x.children()
                r = go(a) if self.entails(c) else go(b) if self.entails(z3.Not(c)) else z3.If(c, go(a), go(b))
            elif x.num_args() == 0: r = x
            else: r = x.decl()(*[go(y) for y in x.children()])
            cache[x.get_id()] = (x, r); return r
        return go(t)
    def verify(self, fid, fn):
        """verify one function: fn(vm) sets up the state, calls the body, states the postconditions"""
        name = self.P.refs[fid]['name'].replace('curves::', '') + '(%s)' % ', '.join(self.P.T(t)['s'].replace('curves::', '') for t in self.P.refs[fid]['ptypes'])
        k0 = len(self.obls)
        ok = self.explore(fn, name)
        if not ok: raise Unsupported('path or time budget exhausted in ' + name)
        if self.cover.get(name, 0) == 0: raise Unsupported('contract of %s is vacuous (no feasible path)' % name)
        obs = [o for key, o in self.obls.items() if key[0] == name]
        self.proved_fns[name] = (len(obs), sum(o.status == 'proved' for o in obs))

def this_symbolic(vm, ty):
    return Root(vm.symbolic(ty, 'this'), 'this', ty)

def verify_spline_getters(vm, N):
    """contract of PolynomialSpline<N>::get*AtTime: the polynomial and derivatives at the clamped time"""
    SF = Names(vm.P, 'curves::PolynomialSpline<%d>' % N)
    for w, g in enumerate(GET):
        for fid in SF.all(g):
            ty = vm.P.strip(vm.P.refs[fid]['cls'])
            def run(v, fid=fid, w=w, ty=ty):
                this = this_symbolic(v, ty); t = v.fresh('t', R)
                s = this.load(); d = s.f['duration_']; v.add(d >= 0)
                # split on the clamp so that the goal is a polynomial identity
                if v.decide(t <= 0): tc = z3.RealVal(0)
                elif v.decide(t >= d): tc = d
                else: tc = t
                res = v.rval(v.call_user(fid, this, [t]))
                res = v.unclamp(res)
                v.oblige(res == poly(list(s.f['coefficients_'].e), tc, w), 'value is the %s of the polynomial at the clamped time' % ('value', 'derivative', 'second derivative')[w])
            vm.verify(fid, run)
def container_contracts(vm, N, upto=None):
    """contracts callers may use (each is verified against its body by verify_container)"""
    vm.spline_contracts(N)
    F = Names(vm.P, 'curves::PolynomialSplineContainer<%d>' % N)
    def lookup(v, fid, r, obj, vals):
        c = Con(v, v.lval(obj), N, F, None); t = v.rval(vals[0])
        if v.decide(c.n == 0): return z3.IntVal(-1)
        c.base_used = True
        k = v.fresh('active', I)
        v.add(c.active(k, t)); v.add(k < (1 << 31) - 1)
        vals[1].store(c.S(k))
        return k
    vm.contracts[F.get('getActiveSplineIndexAtTime', 2)] = lookup
    return F

def any_container(v, ty, N, F, play=True):
    this = this_symbolic(v, ty)
    c = Con(v, this, N, F, None)
    c.base()
    if play: v.add(c.play(), True)
    return this, c
def same(v, a, b, what):
    for x, y in zip(v.flat(a), v.flat(b)):
        if not x[1].eq(y[1]): v.oblige(x[1] == y[1], what)
def verify_lookup(vm, N, F, ty):
    fid = F.get('getActiveSplineIndexAtTime', 2)
    def run(v):
        this, c = any_container(v, ty, N, F, False)
        t = v.fresh('t', R); off0 = v.fresh('off', R); off = Root(off0)
        old = this.load()
        k = v.rval(v.call_user(fid, this, [t, off]))
        same(v, this.load(), old, 'lookup changes nothing')
        if v.decide(c.n == 0):
            v.oblige(k == -1, 'lookup in an empty sequence gives -1')
        else:
            v.oblige(c.active(k, t), 'lookup returns the segment whose span contains the time')
            v.oblige(off.load() == c.S(k), 'lookup returns the start of that segment')
    vm.verify(fid, run)
def verify_at_time(vm, N, F, ty, end=False):
    for w, g in enumerate(GET):
        gid = F.get(g, 1)
        def run(v, gid=gid, w=w):
            this, c = any_container(v, ty, N, F, False)
            t = v.fresh('t', R)
            old = this.load()
            res = v.rval(v.call_user(gid, this, [t]))
            same(v, this.load(), old, 'evaluation changes nothing')
            if v.decide(c.n == 0): v.oblige(res == 0, 'an empty sequence evaluates to zero'); return
            k = v.fresh('k', I); v.add(c.active(k, t))
            v.oblige(res == c.val(w, k, t - c.S(k)), 'value of the segment containing the time, at the local time')
            if v.decide(t >= c.S(c.n)): v.oblige(res == c.val(w, c.n - 1, sel(c.D, c.n - 1)), 'at or past the end: the end value')
            elif v.decide(t < 0): v.oblige(res == c.val(w, z3.IntVal(0), z3.RealVal(0)), 'before the start: the start value')
        vm.verify(gid, run)
        if not end: continue
        eid = F.get(('getEndPosition', 'getEndVelocity', 'getEndAcceleration')[w], 0)
        def run(v, eid=eid, w=w):
            this, c = any_container(v, ty, N, F, False)
            old = this.load()
            res = v.rval(v.call_user(eid, this, []))
            same(v, this.load(), old, 'evaluation changes nothing')
            if v.decide(c.n == 0): v.oblige(res == 0, 'an empty sequence has end value zero'); return
            v.oblige(res == c.val(w, c.n - 1, sel(c.D, c.n - 1)), 'end value is the last segment at its duration')
        vm.verify(eid, run)
def verify_growth(vm, N, F, ty):
    P = vm.P
    cid = F.get('PolynomialSplineContainer', 0)
    def run(v):
        root = Root(v.uninit_rec(ty), 'this', ty)
        v.call_user(cid, root, [])
        c = Con(v, root, N, F, None)
        v.oblige(c.n == 0, 'a new sequence is empty'); c.oblige_inv('constructor')
    vm.verify(cid, run)
    for aid in F.all('addSpline', 1):
        def run(v, aid=aid):
            this, c = any_container(v, ty, N, F, True)
            sp = Root(v.symbolic(P.refs[aid]['ptypes'][0], 'spline'), 'spline', P.strip(P.refs[aid]['ptypes'][0]))
            s = sp.load(); v.add(s.f['duration_'] >= 0)
            v.add(c.n < MAXN)
            res = v.rval(v.call_user(aid, this, [sp]))
            v.oblige(bv(res), 'adding a segment reports success')
            d = Con(v, this, N, F, None)
            v.oblige(d.n == c.n + 1, 'one more segment')
            new = v.svec_elem(d.vec, c.n)
            for (p, x), (p2, y) in zip(v.flat(new), v.flat(v.tosym(s, d.vec.et))): v.oblige(x == y, 'the new segment is last and unchanged: ' + v.pname(p))
            for p in c.vec.lv: v.oblige_all(z3.IntVal(0), c.n, lambda j, p=p: z3.Select(d.vec.lv[p], j) == z3.Select(c.vec.lv[p], j), 'the earlier segments are unchanged: ' + v.pname(p))
            v.oblige(d.now == c.now, 'playback time unchanged')
            d.oblige_inv('addSpline')
        vm.verify(aid, run)
def verify_C04(vm, N):
    verify_spline_getters(vm, N)
    F = container_contracts(vm, N)
    ty = vm.P.strip(vm.P.refs[F.get('getActiveSplineIndexAtTime', 2)]['cls'])
    verify_lookup(vm, N, F, ty); verify_at_time(vm, N, F, ty, True); verify_growth(vm, N, F, ty)
    for nm, fn in (('getContainerDuration', lambda c: c.dur), ('getContainerTime', lambda c: c.now), ('isEmpty', lambda c: c.n == 0), ('getActiveSplineIndex', lambda c: c.idx)):
        gid = F.get(nm, 0)
        def run(v, gid=gid, fn=fn, nm=nm):
            this, c = any_container(v, ty, N, F, False)
            res = v.rval(v.call_user(gid, this, []))
            v.oblige(res == fn(c), nm + ' reports the stored value')
        vm.verify(gid, run)

def verify_C08(vm, N):
    P = vm.P
    verify_spline_getters(vm, N)
    F = container_contracts(vm, N)
    ty = P.strip(P.refs[F.get('getActiveSplineIndexAtTime', 2)]['cls'])
    verify_lookup(vm, N, F, ty)
    def unchanged(v, c, d, what, fields=('now', 'off', 'dur', 'idx')):
        v.oblige(d.n == c.n, what + ': number of segments unchanged')
        for p in c.vec.lv:
            if not d.vec.lv[p].eq(c.vec.lv[p]): v.oblige_all(z3.IntVal(0), c.n, lambda j, p=p: z3.Select(d.vec.lv[p], j) == z3.Select(c.vec.lv[p], j), what + ': segments unchanged')
        for f in fields: v.oblige(getattr(d, f) == getattr(c, f), what + ': nothing changed (%s)' % f)
    aid = F.get('advance', 1)
    def run(v):
        this, c = any_container(v, ty, N, F)
        dt = v.fresh('dt', R); v.add(dt >= 0)
        res = v.rval(v.call_user(aid, this, [dt]))
        d = Con(v, this, N, F, None)
        want = z3.And(c.n > 0, c.now < c.S(c.n))
        v.oblige(res == want, 'advance returns true exactly when non-empty and the end is not reached')
        if v.decide(want):
            v.oblige(d.now == c.now + dt, 'advance adds the step to the playback time')
            unchanged(v, c, d, 'advance', ('dur',))
        else: unchanged(v, c, d, 'refused advance')
        d.oblige_inv('advance')
    vm.verify(aid, run)
    sid = F.get('setContainerTime', 1)
    def run(v):
        this, c = any_container(v, ty, N, F)
        t = v.fresh('t', R)
        v.call_user(sid, this, [t])
        d = Con(v, this, N, F, None)
        v.oblige(d.now == t, 'jumping sets the playback time'); unchanged(v, c, d, 'jump', ('dur',)); d.oblige_inv('setContainerTime')
    vm.verify(sid, run)
    rid = F.get('resetTime', 0)
    def run(v):
        this, c = any_container(v, ty, N, F)
        res = v.rval(v.call_user(rid, this, []))
        d = Con(v, this, N, F, None)
        v.oblige(bv(res), 'rewinding reports success')
        v.oblige(d.now == 0, 'rewinding sets the playback time to zero'); unchanged(v, c, d, 'rewind', ('dur',)); d.oblige_inv('resetTime')
    vm.verify(rid, run)
    cid = F.get('reset', 0)
    def run(v):
        this, c = any_container(v, ty, N, F)
        res = v.rval(v.call_user(cid, this, []))
        d = Con(v, this, N, F, None)
        v.oblige(bv(res), 'clearing reports success')
        v.oblige(z3.And(d.n == 0, d.now == 0, d.dur == 0), 'clearing empties the sequence and rewinds'); d.oblige_inv('reset')
    vm.verify(cid, run)
    for w, g in enumerate(('getPosition', 'getVelocity', 'getAcceleration')):
        gid = F.get(g, 0)
        def run(v, gid=gid, w=w):
            this, c = any_container(v, ty, N, F)
            old = this.load()
            res = v.rval(v.call_user(gid, this, []))
            unchanged(v, c, Con(v, this, N, F, None), 'query')
            if v.decide(c.n == 0): v.oblige(res == 0, 'an empty sequence evaluates to zero'); return
            k = v.fresh('k', I); v.add(c.active(k, c.now))
            v.oblige(res == c.val(w, k, c.now - c.S(k)), 'current value is the evaluation at the playback time')
        vm.verify(gid, run)
    verify_growth(vm, N, F, ty)
    verify_at_time(vm, N, F, ty)
