"""Contracts of the message interfaces of curves_ros (C18): messages with any number of joints and points."""
from texts import *
CLS = {'RosJointTrajectoryInterface': 'PolynomialSplineScalarCurve', 'RosMultiDOFJointTrajectoryInterface': 'CubicHermiteSE3Curve', 'RosMultiDOFJointTrajectoryTranslationInterface': 'PolynomialSplineVectorSpaceCurve'}
C18_JOBS = [[k] for k in CLS]
from fractions import Fraction
NANO = rv(Fraction(1e-9))
class Ros:
    def __init__(self, vm, cls):
        self.vm = vm; P = vm.P; self.cls = cls
        c = [k for k, r in P.refs.items() if r['name'] == 'curves::%s::fromMessage' % cls and k in P.funcs]
        if len(c) != 1: raise Unsupported('%s::fromMessage not found' % cls)
        self.fid = c[0]; self.ty = P.strip(P.refs[c[0]]['cls']); self.msg = P.strip(P.refs[self.fid]['ptypes'][0])
        fits = [k for k, r in P.refs.items() if r['name'].startswith('curves::' + CLS[cls]) and r['name'].endswith('::fitCurve')]
        for k in fits: vm.contracts[k] = self.fit
    def leaf(self, o, *path):
        """the array leaf of a vector at a path of members"""
        for p, a in o.lv.items():
            if tuple(p) == path: return a
        raise Unsupported('representation of a message: no %s' % (path,))
    def fit(self, v, fid, r, obj, vals):
        """fitCurve (contracts of C09, C10, C16): the curve is what the times and values determine"""
        if len(vals) > 3: raise Unsupported('another fit')
        t = v.rval(vals[0]); x = v.rval(vals[1])
        t = v.svec_of(t) if isinstance(t, CVec) else t; x = v.svec_of(x) if isinstance(x, CVec) else x
        v.oblige(t.n == x.n, 'precondition of fitCurve: as many values as times', 'pre')
        v.fits.append((t, x)); return None

vec = lambda k: (('f', k[0]), ('f', k[1]))
SRC = {0: [((), ())], 1: [((('m', q),), vec(('translation', 'xyz'[q]))) for q in range(3)],
       2: [((('f', 'position_'), ('f', 'vec_'), ('m', q)), vec(('translation', 'xyz'[q]))) for q in range(3)] + [(vec(('rotation_', 'q%s_' % a)), vec(('rotation', a))) for a in 'wxyz']}
def verify_C18(vm, only):
    cls = only[0]; c = Ros(vm, cls)
    kind = {'RosJointTrajectoryInterface': 0, 'RosMultiDOFJointTrajectoryTranslationInterface': 1, 'RosMultiDOFJointTrajectoryInterface': 2}[cls]
    def run(named):
        def go(v):
            v.fits = []
            m = Root(v.symbolic(c.msg, 'msg'), 'message', c.msg); o = m.load(); name = v.fresh('joint', I)
            jn, pts = o.f['joint_names'], o.f['points']
            J = c.leaf(jn, ('f', 't')); coll = 'positions' if kind == 0 else 'transforms'
            N = c.leaf(pts, ('f', coll), ('n',))
            v.addq(QF(z3.IntVal(0), pts.n, lambda i: z3.And(S(N, i) >= jn.n, S(N, i) < MAXN), [direct(N)]))
            j0 = v.fresh('j0', I)
            if named:
                v.add(z3.And(j0 >= 0, j0 < jn.n, S(J, j0) == name)); v.addq(QF(z3.IntVal(0), j0, lambda i: S(J, i) != name, [direct(J)]))
            else: v.addq(QF(z3.IntVal(0), jn.n, lambda i: S(J, i) != name, [direct(J)]))
            this = Root(Rec(c.ty, {}), 'this', c.ty)      # reading the state of the curve is not covered by this contract
            r = v.call_user(c.fid, this, [m, tid(name)])
            r = bv(v.rval(r))
            if not named:
                v.oblige(z3.Not(r), 'a joint the message does not name is refused'); v.oblige(not v.fits, 'a refused message leaves the curve as it was'); return
            v.oblige(r, 'a joint the message names is accepted'); v.oblige(len(v.fits) == 1, 'the curve is fitted once')
            if len(v.fits) != 1: return
            t, x = v.fits[0]; i = v.fresh('i', I); inr = z3.And(i >= 0, i < pts.n)
            v.oblige(t.n == pts.n, 'one knot per point of the message')
            (T,) = t.lv.values(); sec = c.leaf(pts, ('f', 'time_from_start'), ('f', 'sec')); ns = c.leaf(pts, ('f', 'time_from_start'), ('f', 'nsec'))
            v.oblige(z3.Implies(inr, S(T, i) == z3.ToReal(S(sec, i)) + NANO * z3.ToReal(S(ns, i))), 'each knot lies at the time from start of its point')
            for q, (get, path) in enumerate(SRC[kind]):
                X = c.leaf(x, *get); Y = c.leaf(pts, ('f', coll), ('v', path))
                v.oblige(z3.Implies(inr, S(X, i) == S(S(Y, i), j0)), 'each knot has the value of that joint (component %d)' % q)
        return go
    vm.verify(c.fid, run(True)); vm.verify(c.fid, run(False), ' [joint not named]')
