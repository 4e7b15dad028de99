"""Contracts of the export of pose curves (C19): saveCurveAtTimes, saveCurveTimesAndValues, any number of rows."""
from texts import *
C19_JOBS = [['saveCurveAtTimes'], ['saveCurveTimesAndValues']]
COMP = [('position_', 'vec_', q) for q in range(3)] + [('rotation_', 'q%s_' % a, None) for a in 'wxyz']
AT = [z3.Function('POSE_%d' % q, R, R) for q in range(7)]       # the pose of the (unchanged) curve at a time
class Save:
    def __init__(self, vm):
        self.vm = vm; P = vm.P
        def one(nm):
            c = [k for k, r in P.refs.items() if r['name'] == 'curves::' + nm]
            if len(c) != 1: raise Unsupported('function %s not found' % nm)
            return c[0]
        self.at, self.all = one('CubicHermiteSE3Curve::saveCurveAtTimes'), one('CubicHermiteSE3Curve::saveCurveTimesAndValues')
        self.eval, self.write = one('CubicHermiteSE3Curve::evaluate'), one('writeTimeVectorCSV')
        self.ty = P.strip(P.refs[self.at]['cls']); self.tt = P.strip(P.refs[self.at]['ptypes'][1])
        vm.contracts[self.eval] = self.evaluate; vm.contracts[self.write] = self.writes
        for k, r in P.refs.items():
            if r['name'].startswith('curves::LocalSupport2CoefficientManager') and r['name'].endswith('::getTimes'): vm.contracts[k] = self.times
    # ---- contracts of the callees
    def evaluate(self, v, fid, r, obj, vals):
        """C16: in range, the pose at that time"""
        t = rv(v.rval(vals[1])); v.oblige(z3.And(v.lo <= t, t <= v.hi), 'the curve is evaluated inside its range', 'pre')
        x = v.rval(vals[0]); pos, rot = x.f['position_'], x.f['rotation_']
        m = pos.f['vec_']; pos = pos.set('vec_', Mat(3, 1, [AT[q](t) for q in range(3)]))
        for q, a in enumerate('wxyz'): rot = rot.set('q%s_' % a, AT[3 + q](t))
        vals[0].store(x.set('position_', pos).set('rotation_', rot)); return z3.BoolVal(True)
    def times(self, v, fid, r, obj, vals):
        """C12: the knot times in order"""
        p = v.rval(vals[0]); p.lv.store(v.knots); return None
    def writes(self, v, fid, r, obj, vals):
        """C15: one row per time and vector"""
        t = v.rval(vals[1]); x = v.rval(vals[2]); t = v.svec_of(t) if isinstance(t, CVec) else t; x = v.svec_of(x) if isinstance(x, CVec) else x
        v.oblige(z3.And(t.n == x.n, t.n >= 1), 'precondition of writeTimeVectorCSV: as many vectors as times, at least one', 'pre')
        v.files.append((v.astid(v.need(vals[0])).f['t'], t, x)); return None

def verify_C19(vm, only):
    c = Save(vm)
    def start(v):
        v.files = []; v.lo = v.fresh('start', R); v.hi = v.fresh('end', R); v.FN = v.fresh('FN', I)
        o = v.symbolic(c.tt, 'times'); (T,) = o.lv.values()
        v.add(o.n >= 1); v.addq(QF(z3.IntVal(0), o.n, lambda i: z3.And(v.lo <= S(T, i), S(T, i) <= v.hi), [direct(T)]))
        this = Root(Rec(c.ty, {'manager_': Opaque('store')}), 'this', c.ty)
        return this, o, T
    def post(v, o, T):
        v.oblige(len(v.files) == 1, 'one file is written')
        if len(v.files) != 1: return
        nm, t, x = v.files[0]; (T2,) = t.lv.values(); i = v.fresh('row', I); inr = z3.And(i >= 0, i < o.n)
        v.oblige(nm == v.FN, 'under the given name'); v.oblige(t.n == o.n, 'one row per time')
        v.oblige(z3.Implies(inr, S(T2, i) == S(T, i)), 'each row has its time')
        (N,) = [a for a in x.lv.values() if a.sort() == IA]; (X,) = [a for a in x.lv.values() if a.sort() == MSORT]
        v.oblige(z3.Implies(inr, S(N, i) == 7), 'each row has seven pose entries')
        for q in range(7): v.oblige(z3.Implies(inr, S(S(X, i), z3.IntVal(q)) == AT[q](S(T, i))), 'entry %d is that of the pose at the time of the row (position, then rotation w x y z)' % q)
    if 'saveCurveAtTimes' in only:
        def at(v):
            this, o, T = start(v); v.call_user(c.at, this, [tid(v.FN), Root(o, 'times', c.tt)]); post(v, o, T)
        vm.verify(c.at, at)
    if 'saveCurveTimesAndValues' in only:
        def al(v):
            this, o, T = start(v); v.knots = o; v.call_user(c.all, this, [tid(v.FN)]); post(v, o, T)
        vm.verify(c.all, al)
