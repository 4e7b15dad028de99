"""Contracts of CubicHermiteSE3Curve (C16): knots carry a pose (position, unit quaternion) and a twist
(linear and angular velocity).  Positions are decided like those of the position curve; rotations by the
algebra of quat.py, the rotation library being known by its laws only."""
from spec_hermite import *
from quat import Quat, NoForm, app

ROT = 'kindr::RotationQuaternionPD'
def has(p, w): return any(w in str(x) for x in p)
def part(flat, w): return [x for p, x in flat if has(p, w)]
PARTS = ('position_', 'rotation_', 'linear_', 'angular_')

class PoseVM(ManVM):
    quat = None
    def prove(self, g):
        if self.quat is None: return super().prove(g)
        t = time.time(); self.stats['solver_calls'] += 1
        try:
            ok = self.quat()
            return ('proved', 'quaternion-algebra', None, '') if ok else ('unknown', 'quaternion-algebra', None, 'no equation of the rotation algebra')
        except (NoForm, TooBig) as e: return ('unknown', 'quaternion-algebra', None, 'outside the rotation algebra: %s' % e)
        finally: self.stats['solver_time'] += time.time() - t
    def oblige_quat(self, fn, label, kind='post'):
        self.quat = fn
        try: return self.oblige(self.fresh('!rot', B), label, kind)
        finally: self.quat = None
    def quatval(self, ty, comps):
        z = self.symbolic(ty, '!q'); ps = [p for p, _ in self.flat(z)]
        if len(ps) != len(comps): raise Unsupported('representation of rotations')
        return self.rebuild(z, dict(zip(ps, comps)))
    def comps(self, x): return [y for _, y in self.flat(self.rval(x) if not isinstance(x, LV) else x.load())]
    def kindr(self):
        """the rotation library by contract"""
        P = self.P
        def vec(v, x): return vec3(v, v.M(x) if not isinstance(v.rval(x), Mat) else v.rval(x))
        for k, r in P.refs.items():
            if not r['name'].startswith(ROT + '::'): continue
            nm = r['name'].split('::')[-1]; rt = P.strip(r['ret']) if r.get('ret') is not None else None
            if nm == 'operator*': c = lambda v, fid, r, obj, vals, rt=rt: v.quatval(rt, app('MUL', *(v.comps(obj) + v.comps(vals[0]))))
            elif nm == 'exponentialMap': c = lambda v, fid, r, obj, vals, rt=rt: v.quatval(rt, app('EXP', *vec(v, vals[0])))
            elif nm == 'logarithmicMap': c = lambda v, fid, r, obj, vals: Mat(3, 1, app('LOG', *v.comps(obj)))
            elif nm == 'rotate': c = lambda v, fid, r, obj, vals: Mat(3, 1, app('ROT', *(v.comps(obj) + vec(v, vals[0]))))
            elif nm == 'inverseRotate': c = lambda v, fid, r, obj, vals: Mat(3, 1, app('IROT', *(v.comps(obj) + vec(v, vals[0]))))
            else: continue
            self.contracts[k] = c

class Pose(Herm):
    def __init__(self, vm):
        self.vm = vm; self.P = vm.P
        self.F = Names(vm.P, 'curves::CubicHermiteSE3Curve')
        self.ty = vm.P.strip(vm.P.refs[self.F.get('evaluate', 2)]['cls'])
        self.m = Man(vm, 'kindr::HermiteTransformation<double>'); self.MF = self.m.F
        vm.kindr()
    def split(self, s):
        z = list(zip(s.cpaths, s.COEF)); out = [part(z, w) for w in PARTS]
        if [len(x) for x in out] != [3, 4, 3, 3]: raise Unsupported('representation of the pose knots')
        return out
class PKnots(Knots):
    def __init__(self, h, s):
        self.n = s.M.n; self.s = s; self.pos, self.rot, self.vel, self.ang = h.split(s)
        self.node = lambda j: S(s.M.nth, iv(j))
    def q(self, j): return [S(a, self.node(j)) for a in self.rot]
    def w(self, j): return [S(a, self.node(j)) for a in self.ang]
    def fams(self):
        d = {}
        for nm, arr, kind in (('rotation', self.rot, 'q'), ('angular', self.ang, 'v')):
            for i, a in enumerate(arr): d[a.get_id()] = (nm, i, kind)
        return d
ONE = z3.RealVal(1)

def verify_C16(vm, only=None):
    h = Pose(vm); F = h.F; MF = h.MF; m = h.m
    vt = vm.P.strip(vm.P.refs[F.get('evaluate', 2)]['ptypes'][0]); dt = vm.P.strip(vm.P.refs[F.get('evaluateDerivative', 3)]['ptypes'][0]); at = vm.P.strip(vm.P.refs[F.get('evaluateLinearAcceleration', 2)]['ptypes'][0])
    def on(group, fid, fn, suffix=''):
        if only is None or group in only: vm.verify(fid, fn, suffix, ManVM.LEVELS[1:2] if group.startswith('fit') else ManVM.LEVELS)
    def call(v, nm, n, this, args): return v.call_user(F.get(nm, n), this, args)
    def key_t(v): return v.P.strip(v.P.T(v.P.strip(v.P.T(v.P.strip(v.P.refs[MF.get('insertCoefficients', 3)]['ptypes'][2]))['to']))['args'][0]['t'])
    store_jobs(h, on)
    # ---- queries
    def query(v, k):
        """k = 0: pose, 1: twist, 2: linear acceleration"""
        this, s = h.any(); K = PKnots(h, s); n = K.n; t = v.fresh('t', R); ty = (vt, dt, at)[k]; out = Root(v.symbolic(ty, 'out'), 'out', ty)
        pose = Root(v.symbolic(vt, 'pose'), 'pose', vt)
        v.contracts[MF.get('getCoefficientsAt', 3)] = at_contract(h)
        try:
            if k == 0: r = call(v, 'evaluate', 2, this, [out, t])
            elif k == 1: r = call(v, 'evaluateDerivative', 3, this, [out, t, z3.IntVal(1)])
            else: r = call(v, 'evaluateLinearAcceleration', 2, this, [out, t])
            if k == 1: call(v, 'evaluate', 2, this, [pose, t])
        finally: v.contracts.pop(MF.get('getCoefficientsAt', 3), None)
        r = bv(v.rval(r)); inside = z3.And(n >= 1, K.t(0) <= t, t <= K.t(n - 1))
        v.oblige(z3.Implies(r, inside), 'queries outside the time range are refused')
        v.oblige(z3.Implies(z3.And(inside, n >= 2) if k == 2 else inside, r), 'queries inside the time range succeed')
        Store(v, h.store(this).lv).unchanged(s, 'the curve')
        if not v.decide(r): return
        fl = v.flat(out.load())
        lin, ang = (part(fl, 'position_'), part(fl, 'rotation_')) if k == 0 else (part(fl, 'linear_'), part(fl, 'angular_')) if k == 1 else ([x for _, x in fl], [])
        if len(lin) != 3: raise Unsupported('representation of the result')
        if v.decide(n == 1):
            if k == 0: v.oblige(z3.And([a == b for a, b in zip(lin + ang, K.x(0) + K.q(0))]), 'a single knot is reproduced')
            if k == 1: v.oblige(z3.And([a == b for a, b in zip(lin + ang, K.d(0) + K.w(0))]), 'a single knot is reproduced')
            return
        i = v.fresh('span', I); v.add(z3.And(i >= 0, i + 1 < n, K.t(i) <= t, z3.Or(t < K.t(i + 1), z3.And(i + 1 == n - 1, t == K.t(i + 1)))), True)
        v.add(K.t(i) < K.t(i + 1), True)
        i1 = z3.simplify(i + 1); pq = part(v.flat(pose.load()), 'rotation_')
        subs = v.aligned(lin + ang + (pq if k == 1 else []), s.M.nth, [i, i1])
        for a, b in zip(lin, cubic(K, i, t, k)): v.oblige_poly(a, b, ('the position is that of the cubic between the surrounding knots', 'the linear velocity is that of the cubic between the surrounding knots', 'the linear acceleration is that of the cubic between the surrounding knots')[k], subs=subs)
        if k == 1:
            def omega():
                Q = Quat(v, K.fams(), subs); w = Q.elem(ang); q = Q.elem(pq); q1 = Q.diff(q, t)
                return Q.equal(w, Q.scale(2 * ONE, Q.mul(q1, Q.conj(q))))
            v.oblige_quat(omega, 'the angular velocity is that of the rotation')
        for e, (j, lab) in enumerate(((i, 'left'), (i1, 'right'))):
            def f(j=j, lab=lab):
                v.add(t == K.t(j), True)
                if k < 2:
                    for a, b in zip(cubic(K, i, K.t(j), k), (K.x if k == 0 else K.d)(j)): v.oblige_poly(a, b, '%s (%s end)' % ('passes through its positions' if k == 0 else 'has the stored linear velocity at its knots', lab), kind='lemma')
                if k == 0: v.oblige_quat(lambda: (lambda Q: Q.equal(Q.elem(ang), Q.elem(K.q(j))))(Quat(v, K.fams(), subs + [(t, K.t(j))])), 'takes the stored rotation at its knots (%s end)' % lab)
                if k == 1: v.oblige_quat(lambda: (lambda Q: Q.equal(Q.elem(ang), Q.elem(K.w(j))))(Quat(v, K.fams(), subs + [(t, K.t(j))])), 'has the stored angular velocity at its knots (%s end)' % lab)
            if k < 2: v.scoped_end(f)
    on('pose', F.get('evaluate', 2), lambda v: query(v, 0)); on('twist', F.get('evaluateDerivative', 3), lambda v: query(v, 1), ' of order 1')
    on('acceleration', F.get('evaluateLinearAcceleration', 2), lambda v: query(v, 2))
    def orders(v):
        this, s = h.any(); t = v.fresh('t', R); out = Root(v.symbolic(dt, 'out'), 'out', dt); o = v.fresh('order', I); v.add(z3.And(o >= 0, o < (1 << 32), o != 1))
        r = bv(v.rval(call(v, 'evaluateDerivative', 3, this, [out, t, o]))); v.oblige(z3.Not(r), 'other derivative orders are refused'); h.store(this).unchanged(s, 'the curve')
    on('acceleration', F.get('evaluateDerivative', 3), orders, ' of another order')
    def ends(v, nm):
        this, s = h.any(); K = PKnots(h, s); n = K.n; r = v.rval(call(v, nm, 0, this, []))
        if nm == 'size': v.oblige(r == n, 'the number of knots')
        elif nm == 'isEmpty': v.oblige(bv(r) == (n == 0), 'empty exactly without knots')
        else: v.oblige(z3.Implies(n >= 1, r == K.t(0 if nm == 'getMinTime' else n - 1)), 'the %s knot time' % ('first' if nm == 'getMinTime' else 'last'))
        h.store(this).unchanged(s, 'the curve')
    for nm in ('size', 'isEmpty', 'getMinTime', 'getMaxTime'): on('ends', F.get(nm, 0), lambda v, nm=nm: ends(v, nm))
    def times(v):
        this, s = h.any(); K = PKnots(h, s); ot = v.P.strip(v.P.T(v.P.strip(v.P.T(v.P.strip(v.P.refs[F.get('getCurveTimes', 1)]['ptypes'][0]))['to']))['args'][0]['t'])
        o = Root(v.svec_fresh(ot, 'out'), 'out'); call(v, 'getCurveTimes', 1, this, [Ptr(o)]); T = v.tovec(o.load()); (ta,) = T.lv.values()
        v.oblige(T.n == K.n, 'one time per knot'); v.oblige_all(z3.IntVal(0), K.n, lambda j: S(ta, j) == K.t(j), 'the knot times in order'); h.store(this).unchanged(s, 'the curve')
    on('ends', F.get('getCurveTimes', 1), times)
    def clr(v):
        this, s = h.any(); call(v, 'clear', 0, this, []); new = h.store(this); v.oblige(new.M.n == 0, 'no knots after clear'); new.oblige_rep('clear')
    on('ends', F.get('clear', 0), clr)
    def ctor(v):
        this = Root(v.uninit_rec(h.ty), 'this', h.ty); v.call_user(F.get('CubicHermiteSE3Curve', 0), this, []); new = h.store(this); v.oblige(new.M.n == 0, 'a new curve has no knots'); new.oblige_rep('construction')
    on('ends', F.get('CubicHermiteSE3Curve', 0), ctor)
    # ---- fits
    def data(v, out):
        r = v.P.refs[F.get('fitCurve', 3)]
        tt = v.P.T(v.P.strip(r['ptypes'][0]))['args'][0]['t']; ct = v.P.T(v.P.strip(r['ptypes'][1]))['args'][0]['t']
        T = Root(v.svec_fresh(tt, 'times'), 'times'); V = Root(v.svec_fresh(ct, 'values'), 'values'); n = T.load().n; v.add(V.load().n == n)
        (ta,) = T.load().lv.values(); increasing(v, ta, n)
        kv = Root(v.svec_fresh(key_t(v), 'keys'), 'keys') if out else None
        z = list(V.load().lv.items()); return T, V, n, ta, part(z, 'position_'), part(z, 'rotation_'), kv
    def fit(v, how, out):
        T, V, n, ta, xa, qa, kv = data(v, out); k0 = kv.load() if out else None
        this, old = h.any()
        v.contracts[MF.get('insertCoefficients', 3)] = seq_contract(h)
        z = z3.RealVal(0); l0 = l1 = [z] * 3; w0 = w1 = [z] * 3; per = False
        fams = {a.get_id(): ('rotations', i, 'q') for i, a in enumerate(qa)}
        try:
            if how == 'given':
                a, b = Root(v.symbolic(dt, 'd0'), 'd0', dt), Root(v.symbolic(dt, 'd1'), 'd1', dt)
                l0, w0 = part(v.flat(a.load()), 'linear_'), part(v.flat(a.load()), 'angular_'); l1, w1 = part(v.flat(b.load()), 'linear_'), part(v.flat(b.load()), 'angular_')
                for nm, w in (('w0', w0), ('w1', w1)):
                    for i, x in enumerate(w): fams[x.get_id()] = (nm, i, 'v')
                call(v, 'fitCurveWithDerivatives', 5, this, [T, V, a, b, Ptr(kv)])
            elif how == 'plain': call(v, 'fitCurve', 3, this, [T, V, Ptr(kv)])
            else:
                v.add(n >= 2)
                for x in xa + qa: v.add(S(x, n - 1) == S(x, z3.IntVal(0)))
                per = True; call(v, 'fitPeriodicCurve', 3, this, [T, V, Ptr(kv)])
        finally: v.contracts.pop(MF.get('insertCoefficients', 3), None)
        new = h.store(this); K = PKnots(h, new); new.oblige_rep('fit')
        z = list(v.fit_lv.items()); fv, fw = part(z, 'linear_'), part(z, 'angular_')
        v.oblige(K.n == n, 'one knot per pose')
        j = v.fresh('j', I)
        v.oblige(z3.Implies(z3.And(j >= 0, j < n), z3.And([K.t(j) == S(ta, j)] + [a == S(x, j) for a, x in zip(K.x(j), xa)] + [a == S(x, j) for a, x in zip(K.q(j), qa)])), 'every knot has its time and pose')
        one = z3.IntVal(1)
        logd = lambda jr, jl, span: (lambda Q: Q.scale(1 / span, Q.elem(app('LOG', *app('MUL', *([S(x, jr) for x in qa] + (lambda c: [c[0], -c[1], -c[2], -c[3]])([S(x, jl) for x in qa])))))))
        e0, e1 = (lambda Q: Q.elem(w0)), (lambda Q: Q.elem(w1))
        if per:
            span = (S(ta, one) - S(ta, z3.IntVal(0))) + (S(ta, n - 1) - S(ta, n - 2)); v.add(span > 0, True)
            l0 = l1 = [(S(x, one) - S(x, n - 2)) / span for x in xa]
            e0 = e1 = logd(one, z3.simplify(n - 2), span)
        def slopes(j, want, ew, label):
            ys = []
            for a, va in zip(K.d(j) + K.w(j), fv + fw):
                y = v.unclamp(v.row(va, iv(j))); ys.append(y); v.oblige(a == y, label + ': stored as computed', 'lemma')
            for y, b in zip(ys, want): v.oblige_poly(y, b, label + ' (linear)')
            v.oblige_quat(lambda: (lambda Q: Q.equal(Q.elem(ys[3:]), ew(Q)))(Quat(v, fams)), label + ' (angular)')
        def first():
            v.add(n >= 1, True); slopes(0, l0, e0, 'the first knot has the boundary velocity')
        v.scoped_end(first)
        def last():
            v.add(n >= 2, True); slopes(z3.simplify(n - 1), l1, e1, 'the last knot has the boundary velocity')
        v.scoped_end(last)
        def inner():
            j = v.fresh('inner', I); v.add(z3.And(j >= 1, j + 1 < n), True)
            jl, jr = z3.simplify(j - 1), z3.simplify(j + 1); v.add(S(ta, jl) < S(ta, jr), True); d = S(ta, jr) - S(ta, jl)
            slopes(j, [(S(x, jr) - S(x, jl)) / d for x in xa], logd(jr, jl, d), 'inner knots have the central-difference velocity')
        v.scoped_end(inner)
        if out:
            k1 = v.tovec(kv.load()); (a1,) = k1.lv.values(); (a0,) = k0.lv.values(); i = v.fresh('i', I)
            v.oblige(k1.n == k0.n + n, 'one key per pose is reported'); v.oblige(z3.Implies(z3.And(j >= 0, j < k0.n), S(a1, j) == S(a0, j)), 'earlier reported keys stay')
            v.oblige(z3.Implies(z3.And(j >= 0, j < n), S(a1, k0.n + j) == S(new.KEY, K.node(j))), 'the reported keys are those of the knots')
            v.oblige(z3.Implies(z3.And(i >= 0, i < j, j < n), S(a1, k0.n + i) != S(a1, k0.n + j)), 'reported keys are distinct')
    for how in ('given', 'plain', 'periodic'):
        nm, k = {'given': ('fitCurveWithDerivatives', 5), 'plain': ('fitCurve', 3), 'periodic': ('fitPeriodicCurve', 3)}[how]
        for out in (False, True): on('fit ' + how, F.get(nm, k), lambda v, how=how, out=out: fit(v, how, out), ' with key list' if out else '')
C16_JOBS = [['fit given'], ['fit plain'], ['fit periodic'], ['store'], ['pose'], ['twist'], ['acceleration', 'ends']]
