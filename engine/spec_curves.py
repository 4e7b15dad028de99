"""Contracts of PolynomialSplineScalarCurve and PolynomialSplineVectorSpaceCurve (C09, C10), on top of the
contracts of the spline sequence (spec_container, spec_fit)."""
from spec_fit import *

CF = {}
OPT = ('tf_', 'pos0_', 'posT_', 'vel0_', 'velT_', 'acc0_', 'accT_')
def cf(n, i):
    """uninterpreted: i-th coefficient computed from spline options (the computation is a function of the options)"""
    if (n, i) not in CF: CF[(n, i)] = z3.Function('C%d_%d' % (n, i), *([R] * 8))
    return CF[(n, i)]
def option_clauses(v, N, cs, o):
    z = z3.RealVal(0); d = o['tf_']
    return [uf(N, 0)(*cs, z) == o['pos0_'], uf(N, 0)(*cs, d) == o['posT_'], uf(N, 1)(*cs, z) == o['vel0_'], uf(N, 1)(*cs, d) == o['velT_'],
            uf(N, 2)(*cs, z) == o['acc0_'], uf(N, 2)(*cs, d) == o['accT_']]
def takes_options(P, r):
    return len(r['ptypes']) == 1 and P.T(P.strip(r['ptypes'][0])).get('s') == 'curves::SplineOptions'
def options_contract(vm, N):
    """PolynomialSpline<5> from options: constructor and computeCoefficients"""
    SF = Names(vm.P, 'curves::PolynomialSpline<%d>' % N)
    for nm in ('PolynomialSpline', 'computeCoefficients'):
        for fid in SF.all(nm, 1):
            if not takes_options(vm.P, vm.P.refs[fid]): continue
            def c(v, fid, r, obj, vals):
                o = v.rval(vals[0]).f
                v.oblige(o['tf_'] > 0, 'precondition of %s: positive duration' % r['short'], 'pre')
                cs = [cf(N, i)(*[o[x] for x in OPT]) for i in range(N + 1)]
                for x in option_clauses(v, N, cs, o): v.add(x, True)
                lv = v.lval(obj); cur = lv.load()
                lv.store(cur.set('coefficients_', Arr(cs)).set('duration_', o['tf_']))
                return z3.BoolVal(True)
            vm.contracts[fid] = c
def verify_options(vm, N):
    SF = Names(vm.P, 'curves::PolynomialSpline<%d>' % N)
    for nm in ('PolynomialSpline', 'computeCoefficients'):
        for fid in SF.all(nm, 1):
            r = vm.P.refs[fid]
            if not takes_options(vm.P, r): continue
            def run(v, fid=fid, r=r, nm=nm):
                ty = v.P.strip(r['cls'])
                this = Root(v.uninit_rec(ty), 'this', ty) if nm == 'PolynomialSpline' else this_symbolic(v, ty)
                oty = v.P.strip(r['ptypes'][0])
                o = Root(v.symbolic(oty, 'o'), 'o', oty); f = o.load().f; v.add(f['tf_'] > 0)
                res = v.call_user(fid, this, [o])
                s = this.load(); cs = list(s.f['coefficients_'].e)
                if nm == 'computeCoefficients': v.oblige(bv(v.rval(res)), 'computing the coefficients succeeds')
                v.oblige(s.f['duration_'] == f['tf_'], 'the duration is the requested one')
                for w, n0, n1 in ((0, 'pos0_', 'posT_'), (1, 'vel0_', 'velT_'), (2, 'acc0_', 'accT_')):
                    v.oblige(poly(cs, z3.RealVal(0), w) == f[n0], 'start value of derivative %d' % w)
                    v.oblige(poly(cs, f['tf_'], w) == f[n1], 'end value of derivative %d' % w)
            vm.verify(fid, run)

def knots(v, x):
    x = v.rval(x)
    return v.svec_of(x) if isinstance(x, CVec) else x
class Fit:
    """what the contract of setData(t, p, v0, a0, vN, aN) says about a container"""
    def __init__(self, v, d, N, n, ta, pa, b):
        self.v, self.d, self.N, self.n, self.ta, self.pa, self.b = v, d, N, n, ta, pa, b
        self.m = z3.simplify(n - 1)
    def val(self, w, j, end): return uf(self.N, w)(*self.d.coef(j), sel(self.d.D, j) if end else z3.RealVal(0))
    def start(self, j): return self.val(0, j, False) == sel(self.pa, j)
    def end(self, j): return self.val(0, j, True) == sel(self.pa, z3.simplify(iv(j) + 1))
    def smooth(self, j):
        j1 = z3.simplify(iv(j) + 1)
        return z3.And(self.val(1, j, True) == self.val(1, j1, False), self.val(2, j, True) == self.val(2, j1, False))
    def ends(self):
        b = self.b; l = z3.simplify(self.n - 2)
        return z3.And(self.val(1, z3.IntVal(0), False) == b[0], self.val(2, z3.IntVal(0), False) == b[1], self.val(1, l, True) == b[2], self.val(2, l, True) == b[3])
    def assume(self):
        v, d, ta, m, n = self.v, self.d, self.ta, self.m, self.n
        D = d.D
        v.add(d.n == m, True); v.add(d.now == 0, True)
        v.addq(QF(z3.IntVal(0), m, lambda j: z3.And(z3.Select(D, j) == z3.Select(ta, j + 1) - z3.Select(ta, j), z3.Select(D, j) > 0), [direct(D)], always=[z3.IntVal(0), z3.simplify(m - 1)], name='knot intervals'))
        v.set_nonneg(D, m)
        v.addq(QF(z3.IntVal(0), z3.simplify(m + 1), lambda j: SUM(D, j) == z3.Select(ta, j) - z3.Select(ta, z3.IntVal(0)), [direct(D)], always=[m], name='start times'))
        v.add(d.dur == SUM(D, m), True); v.add(d.play(), True)
        c0 = d.C[0]
        v.addq(QF(z3.IntVal(0), m, lambda j: z3.And(self.start(j), self.end(j)), [direct(c0)], always=[z3.IntVal(0), z3.simplify(m - 1)], name='interpolates'))
        v.addq(QF(z3.IntVal(0), z3.simplify(m - 1), self.smooth, [direct(c0)], name='smooth'))
        v.add(self.ends(), True)
def fit_contract(vm, N, K, F):
    def c(v, fid, r, obj, vals):
        lv = v.lval(obj); old = Con(v, lv, N, F, None)
        T, Q = knots(v, vals[0]), knots(v, vals[1])
        (ta,), (pa,) = list(T.lv.values()), list(Q.lv.values())
        b = [v.rval(x) for x in vals[2:]]
        v.oblige(T.n == Q.n, 'precondition of setData: one position per knot time', 'pre')
        v.oblige(T.n >= 2, 'precondition of setData: two knots', 'pre')
        v.oblige_all(z3.IntVal(0), T.n - 1, lambda j: z3.Select(ta, j) < z3.Select(ta, j + 1), 'precondition of setData: increasing knot times', 'pre')
        rec = v.symbolic(lv.load().t, '!fit')
        lv.store(rec)
        d = Con(v, lv, N, F, None)
        Fit(v, d, N, T.n, ta, pa, b).assume()
        return z3.BoolVal(True)
    vm.contracts[F.get('setData', K)] = c
def at_time_contracts(vm, N, F):
    for w, g in enumerate(GET):
        def c(v, fid, r, obj, vals, w=w):
            lv = v.lval(obj); k = Con(v, lv, N, F, None); t = v.rval(vals[0])
            if v.decide(k.n == 0): return z3.RealVal(0)
            i = v.fresh('active', I); v.add(k.active(i, t))
            return k.val(w, i, t - k.S(i))
        vm.contracts[F.get(g, 1)] = c

class Curve:
    """one curve class; dims = 0 for the scalar curve"""
    def __init__(self, vm, cls, dims):
        self.vm = vm; self.P = vm.P; self.cls = cls; self.dims = dims; self.N = 5
        self.F = container_contracts(vm, 5)
        self.M = Names(vm.P, cls)
        at_time_contracts(vm, 5, self.F); fit_contract(vm, 5, 6, self.F); options_contract(vm, 5)
        self.cty = vm.P.strip(vm.P.refs[self.F.get('getActiveSplineIndexAtTime', 2)]['cls'])
        self.ty = vm.P.strip(vm.P.refs[self.M.get('getMinTime')]['cls'])
    def lvs(self, this):
        v = self.vm
        if not self.dims: return [Sub(v, this, ('f', 'container_'))]
        vec = Sub(v, this, ('f', 'containers_'))
        return [Sub(v, vec, ('i', z3.IntVal(i))) for i in range(self.dims)]
    def cons(self, this): return [Con(self.vm, l, self.N, self.F, None) for l in self.lvs(this)]
    def arbitrary(self, fitted=False):
        """any state: each sequence satisfies its invariant; the vector curve has one sequence per dimension, all of the same length of time"""
        v = self.vm
        f = {}
        for x in self.P.fields(self.ty):
            if x['name'] == 'containers_': f['containers_'] = CVec([v.symbolic(self.cty, 'c%d' % i) for i in range(self.dims)], self.cty)
            else: f[x['name']] = v.symbolic(x['type'], x['name'])
        this = Root(Rec(self.ty, f), 'this', self.ty)
        cs = self.cons(this)
        for c in cs: c.base(); v.add(c.play(), True)
        return this, cs
    def min(self, this): return this.load().f['minTime_']
    def call(self, nm, this, args, n=None):
        return self.vm.call_user(self.M.get(nm, n), this, args)
    def out(self):
        v = self.vm
        return Root(v.fresh('junk', R), 'out') if not self.dims else Root(Mat(self.dims, 1, [v.fresh('junk', R) for _ in range(self.dims)]), 'out')
    def comps(self, o):
        x = o.load()
        return [x] if not self.dims else list(x.e)
    def eval(self, this, t, w):
        """the real evaluate / evaluateDerivative in the current state"""
        v = self.vm; o = self.out()
        if w == 0: r = self.call('evaluate', this, [o, t], 2)
        else: r = self.call('evaluateDerivative', this, [o, t, z3.IntVal(w)], 3)
        v.oblige(bv(v.rval(r)), 'evaluation succeeds' if w == 0 else 'derivatives of order 1 and 2 are answered')
        return self.comps(o)
    def inv(self, this, what):
        if self.dims:
            vec = this.load().f['containers_']
            self.vm.oblige(bv(isinstance(vec, CVec) and len(vec.e) == self.dims), what + ': one sequence per dimension', 'rep')
        for c in self.cons(this): c.oblige_inv(what)
    def empty(self, this, what):
        v = self.vm
        v.oblige(self.min(this) == 0, what + ': starts at time zero')
        for c in self.cons(this): v.oblige(c.n == 0, what + ': empty')
        v.oblige(v.rval(self.call('getMinTime', this, [])) == 0, what + ': minimum time zero')
        v.oblige(v.rval(self.call('getMaxTime', this, [])) == 0, what + ': maximum time zero')
    def same(self, this, old, what): same(self.vm, this.load(), old, what)

    def verify(self, part=None):
        """part None: everything but the fits; else the part-th fit"""
        vm, M = self.vm, self.M; v = vm
        if part is not None: return self.verify_fit(part)
        cid = M.get(self.cls.split('<')[0].split('::')[-1], 0)
        def ctor(v):
            this = Root(v.uninit_rec(self.ty), 'this', self.ty)
            v.call_user(cid, this, [])
            self.inv(this, 'constructor'); self.empty(this, 'a new curve')
        vm.verify(cid, ctor)
        def clear(v):
            this, cs = self.arbitrary()
            self.call('clear', this, [])
            self.inv(this, 'clear'); self.empty(this, 'a cleared curve')
        vm.verify(M.get('clear'), clear)
        def tmin(v):
            this, cs = self.arbitrary(); old = this.load()
            v.oblige(v.rval(self.call('getMinTime', this, [])) == self.min(this), 'minimum time is the start of the curve'); self.same(this, old, 'query changes nothing')
        vm.verify(M.get('getMinTime'), tmin)
        def tmax(v):
            this, cs = self.arbitrary(); old = this.load()
            v.oblige(v.rval(self.call('getMaxTime', this, [])) == self.min(this) + cs[0].S(cs[0].n), 'maximum time is the start plus the durations'); self.same(this, old, 'query changes nothing')
        vm.verify(M.get('getMaxTime'), tmax)
        for w in (0, 1, 2):
            def ev(v, w=w):
                this, cs = self.arbitrary(); old = this.load()
                t = v.fresh('t', R)
                xs = self.eval(this, t, w)
                self.same(this, old, 'evaluation changes nothing')
                for c, x in zip(cs, xs):
                    if v.decide(c.n == 0): v.oblige(x == 0, 'an empty curve evaluates to zero'); continue
                    k = v.fresh('k', I); v.add(c.active(k, t - self.min(this)))
                    v.oblige(x == c.val(w, k, t - self.min(this) - c.S(k)), 'derivative %d of the segment at the time since the start of the curve' % w)
            vm.verify(M.get('evaluate', 2) if w == 0 else M.get('evaluateDerivative', 3), ev)
        def other(v):
            this, cs = self.arbitrary(); old = this.load(); o = self.out()
            k = v.fresh('order', I); v.add(z3.And(k >= 0, k < 1 << 32, k != 1, k != 2))
            r = v.rval(self.call('evaluateDerivative', this, [o, v.fresh('t', R), k], 3))
            v.oblige(z3.Not(bv(r)), 'other derivative orders are refused'); self.same(this, old, 'evaluation changes nothing')
        vm.verify(M.get('evaluateDerivative', 3), other)
    def verify_fit(self, part):
        vm, M = self.vm, self.M
        fids = M.all('fitCurve')
        if part >= len(fids): raise Unsupported('fitCurve overload missing')
        for fid in fids[part:part + 1] if part < 3 else fids[part:]:
            pt = [self.P.T(self.P.strip(t))['s'] for t in self.P.refs[fid]['ptypes']]
            if 'SplineOptions' in pt[0]:
                if not self.dims: vm.verify(fid, lambda v, fid=fid: self.fit_options(v, fid))
                continue
            vm.verify(fid, lambda v, fid=fid, pt=pt: self.fit(v, fid, pt))
    def args(self, v, fid, pt):
        tys = [self.P.strip(t) for t in self.P.refs[fid]['ptypes']]
        out = [Root(v.symbolic(t, 'a%d' % i), 'a%d' % i, t) for i, t in enumerate(tys[:len(pt) if '*' not in pt[-1] else -1])]
        T = out[0].load(); n = T.n
        for a in out[1:]:
            x = a.load()
            if isinstance(x, SVec): a.store(SVec(n, x.et, x.lv))
        if '*' in pt[-1]: out.append(Root(Ptr(None), 'keys', tys[-1]))
        return out, n
    def fit(self, v, fid, pt):
        this, cs = self.arbitrary()
        a, n = self.args(v, fid, pt)
        (ta,) = a[0].load().lv.values()
        v.add(n >= 2); increasing(v, dict(ta=ta, n=n))
        vals = a[1].load(); D = max(1, self.dims)
        pas = list(vals.lv.values())
        extra = a[2:] if '*' not in pt[-1] else a[2:-1]
        z = [z3.RealVal(0)] * 4
        if not extra: bs = [z] * D
        elif len(extra) == 4: bs = [[x.load() if not self.dims else x.load().e[i] for x in extra] for i in range(D)]
        else:   # lists of first and second derivatives: first and last entry count
            A1, A2 = (list(x.load().lv.values()) for x in extra)
            l = z3.simplify(n - 1)
            bs = [[sel(A1[i], 0), sel(A2[i], 0), sel(A1[i], l), sel(A2[i], l)] for i in range(D)]
        v.call_user(fid, this, a)
        self.inv(this, 'fit')
        m = z3.simplify(n - 1)
        v.oblige(v.rval(self.call('getMinTime', this, [])) == sel(ta, 0), 'minimum time is the first fitted time')
        v.oblige(v.rval(self.call('getMaxTime', this, [])) == sel(ta, m), 'maximum time is the last fitted time')
        ds = self.cons(this)
        F = [Fit(v, ds[i], self.N, n, ta, pas[i], bs[i]) for i in range(D)]
        j = v.fresh('seg', I)
        for i in range(D):
            v.oblige(ds[i].n == m, 'one segment per knot interval')
            v.oblige_all(z3.IntVal(0), m, lambda j: z3.Select(ds[i].D, j) == z3.Select(ta, j + 1) - z3.Select(ta, j), 'segment durations are the knot intervals')
            v.oblige(z3.Implies(z3.And(j >= 0, j < m), z3.And(F[i].start(j), F[i].end(j))), 'every segment joins its knots')
            v.oblige(z3.Implies(z3.And(j >= 0, j < m - 1), F[i].smooth(j)), 'first and second derivative are continuous at inner knots')
            v.oblige(F[i].ends(), 'boundary derivatives as requested')
        def knot(v=v):
            i = v.fresh('knot', I); v.add(z3.And(i >= 0, i < n))
            for d in ds: v.scan(z3.And(SUM(d.D, i) == 0, SUM(d.D, z3.simplify(i + 1)) == 0), 0)
            for x, pa in zip(self.eval(this, sel(ta, i), 0), pas): v.oblige(x == sel(pa, i), 'the curve takes the fitted value at the fitted time')
        knot()
        q = v.fresh('q', R)
        if v.decide(q < sel(ta, 0)):
            for x, pa in zip(self.eval(this, q, 0), pas): v.oblige(x == sel(pa, 0), 'the first value is held before the start')
        elif v.decide(q > sel(ta, m)):
            for x, pa in zip(self.eval(this, q, 0), pas): v.oblige(x == sel(pa, m), 'the last value is held after the end')
        else:
            for w in (1, 2):
                for x, b in zip(self.eval(this, sel(ta, 0), w), bs): v.oblige(x == b[w - 1], 'derivative at the start as requested')
                for x, b in zip(self.eval(this, sel(ta, m), w), bs): v.oblige(x == b[w + 1], 'derivative at the end as requested')
    def fit_options(self, v, fid):
        this, cs = self.arbitrary()
        t = self.P.strip(self.P.refs[fid]['ptypes'][0]); kt = self.P.strip(self.P.refs[fid]['ptypes'][1])
        a = Root(v.symbolic(t, 'o'), 'o', t); O = a.load(); n = O.n
        leaf = {p[-1][1]: x for p, x in O.lv.items()}
        tf = leaf['tf_']
        v.add(n < MAXN)
        v.addq(QF(z3.IntVal(0), n, lambda j: z3.Select(tf, j) > 0, [direct(tf)]))
        v.call_user(fid, this, [a, Root(Ptr(None), 'keys', kt)])
        self.inv(this, 'fit')
        d = self.cons(this)[0]
        v.oblige(d.n == n, 'one segment per description, nothing kept')
        v.oblige(v.rval(self.call('getMinTime', this, [])) == 0, 'the curve starts at time zero')
        v.oblige_all(z3.IntVal(0), n, lambda j: z3.Select(d.D, j) == z3.Select(tf, j), 'segment durations as described')
        j = v.fresh('seg', I)
        o = {k: sel(x, j) for k, x in leaf.items()}
        def seg():
            v.add(z3.And(j >= 0, j < n), True)
            for x in option_clauses(v, self.N, [cf(self.N, i)(*[o[k] for k in OPT]) for i in range(self.N + 1)], o): v.add(x, True)   # contract of the constructor at element j
            for x, nm in zip(option_clauses(v, self.N, d.coef(j), o), ('start position', 'end position', 'start velocity', 'end velocity', 'start acceleration', 'end acceleration')): v.oblige(x, 'segment takes the described ' + nm)
        v.scoped_end(seg)

def verify_C09(vm, part): Curve(vm, 'curves::PolynomialSplineScalarCurve<curves::PolynomialSplineContainer<5>>', 0).verify(part)
def verify_C10(vm, part): Curve(vm, 'curves::PolynomialSplineVectorSpaceCurve<curves::PolynomialSpline<5>, 3>', 3).verify(part)
