"""Contracts of PolynomialSplineContainer<N>::setData (three overloads): C05, C06, C07 and the part
of C08 about fitting.  The knots are vectors of arbitrary length."""
from spec_container import *

def call_fit(v, N, K, F, ty):
    """arbitrary earlier content, arbitrary knots; returns everything the postconditions need"""
    P = v.P
    fid = F.get('setData', K)
    this, c = any_container(v, ty, N, F)
    pt = P.refs[fid]['ptypes']
    mk = lambda i, nm: Root(v.symbolic(P.strip(pt[i]), nm), nm, P.strip(pt[i]))
    t, p = mk(0, 't'), mk(1, 'p')
    T, Q = t.load(), p.load()
    Q = SVec(T.n, Q.et, Q.lv); p.store(Q)      # as many positions as knot times
    (ta,), (pa,) = list(T.lv.values()), list(Q.lv.values())
    b = [v.fresh(x, R) for x in {2: (), 4: ('v0', 'vN'), 6: ('v0', 'a0', 'vN', 'aN')}[K]]
    bd = dict(zip({2: (), 4: ('v0', 'vN'), 6: ('v0', 'a0', 'vN', 'aN')}[K], b))
    return dict(fid=fid, this=this, old=c, t=t, p=p, n=T.n, ta=ta, pa=pa, b=b, **bd)
def at(a, i): return z3.simplify(z3.Select(a, iv(i)))
def increasing(v, s):
    ta, n = s['ta'], s['n']
    v.addq(QF(z3.IntVal(0), z3.simplify(n - 1), lambda j: z3.Select(ta, j) < z3.Select(ta, j + 1), [direct(ta), (ta, lambda i: z3.simplify(i - 1))], name='increasing'))

def verify_state(vm, N, overloads=(2, 4, 6)):
    """C07: outcome and state of a fit"""
    F = container_contracts(vm, N)
    ty = vm.P.strip(vm.P.refs[F.get('getActiveSplineIndexAtTime', 2)]['cls'])
    for K in overloads:
        fid = F.get('setData', K)
        def run(v, K=K):
            s = call_fit(v, N, K, F, ty)
            n, ta = s['n'], s['ta']
            res = v.rval(v.call_user(s['fid'], s['this'], [s['t'], s['p']] + s['b']))
            d = Con(v, s['this'], N, F, None)
            if v.decide(bv(res)):
                v.oblige(n >= 2, 'a successful fit had at least two knots')
                v.oblige_all(z3.IntVal(0), n - 1, lambda j: z3.Select(ta, j) < z3.Select(ta, j + 1), 'a successful fit had strictly increasing knot times')
                v.oblige(d.n == n - 1, 'a successful fit has one segment per knot interval')
                v.oblige(d.now == 0, 'a successful fit rewinds to time zero')
                d.oblige_inv('fit')
            else:
                v.oblige(d.n == 0, 'a rejected fit leaves no segment')
                v.oblige(d.dur == 0, 'a rejected fit leaves zero duration')
                v.oblige(d.now == 0, 'a rejected fit leaves time zero')
                d.oblige_inv('rejected fit')
                def never():
                    v.add(n >= 2, True); increasing(v, s)
                    v.oblige(False, 'a fit of two or more strictly increasing knots is not rejected')
                v.scoped_end(never)
        vm.verify(fid, run)

class Witness:
    """solution of the linear system of a fit, as a function of segment and power (ghost)"""
    def __init__(self, v, s, N, K):
        self.v = v; self.s = s; self.N = N; self.K = K
        ta = s['ta']
        self.DUR = v.fresh('dur', AR)         # ghost: lengths of the knot intervals
        D = self.DUR
        v.addq(QF(z3.IntVal(0), s['n'] - 1, lambda j: z3.And(z3.Select(D, j) == z3.Select(ta, j + 1) - z3.Select(ta, j), z3.Select(D, j) > 0), [direct(D)], name='dur'))
    def dur(self, j): return at(self.DUR, j)

class Quintic(Witness):
    def __init__(self, v, s, N, K):
        super().__init__(v, s, N, K)
        self.V = v.fresh('V', AR); self.A = v.fresh('A', AR); n = s['n']
        for a, x, i in ((self.V, 'v0', z3.IntVal(0)), (self.V, 'vN', n - 1), (self.A, 'a0', z3.IntVal(0)), (self.A, 'aN', n - 1)): v.add(at(a, i) == s[x], True)
    def coef(self, j, power):
        p0, p1 = at(self.s['pa'], j), at(self.s['pa'], j + 1); d = self.dur(j); r = z3.RealVal(1) / d
        v0, v1, a0, a1 = at(self.V, j), at(self.V, j + 1), at(self.A, j), at(self.A, j + 1)
        D = p1 - p0
        if power == 0: return p0
        if power == 1: return v0
        if power == 2: return a0 / 2
        if power == 3: return 10 * D * r * r * r - (6 * v0 + 4 * v1) * r * r - (z3.RealVal(3) / 2 * a0 - a1 / 2) * r
        if power == 4: return -15 * D * r * r * r * r + (8 * v0 + 7 * v1) * r * r * r + (z3.RealVal(3) / 2 * a0 - a1) * r * r
        return 6 * D * r * r * r * r * r - 3 * (v0 + v1) * r * r * r * r - (a0 - a1) / 2 * r * r * r
    def defs(self, j): return []
    def ends(self):
        n = self.s['n']
        return [(at(self.V, 0), self.s['v0']), (at(self.A, 0), self.s['a0'])], [(at(self.V, n - 1), self.s['vN']), (at(self.A, n - 1), self.s['aN'])]

class Cubic(Witness):
    """clamped cubic spline through the knots: knot velocities M by forward elimination (H, G) and back substitution"""
    def __init__(self, v, s, N, K):
        super().__init__(v, s, N, K)
        n = s['n']
        self.H, self.G, self.M = (v.fresh(x, AR) for x in 'HGM')
        H, G, M = self.H, self.G, self.M
        v.add(z3.And(at(H, 0) == 0, at(G, 0) == s['v0'], at(M, n - 1) == s['vN']), True)
        tr = lambda a: [direct(a)]
        E = self.E = v.fresh('E', AR)
        v.addq(QF(z3.IntVal(1), n - 1, lambda j: z3.Select(E, j) == self.den(j), tr(E), name='E'))
        v.addq(QF(z3.IntVal(1), n - 1, lambda j: z3.Select(H, j) == self.hdef(j), tr(H), name='H'))
        v.addq(QF(z3.IntVal(1), n - 1, lambda j: z3.Select(G, j) == self.gdef(j), tr(G), name='G'))
        v.addq(QF(z3.IntVal(0), n - 1, lambda j: z3.Select(M, j) == z3.Select(G, j) - z3.Select(H, j) * z3.Select(M, j + 1), tr(M), name='M'))
        h, d0, d1, e, x = z3.Reals('h d0 d1 e x')
        self.lemma = lambda H_, D0, D1, E_: z3.Implies(z3.And(D0 > 0, D1 > 0, H_ >= 0, H_ < 1, E_ == 2 * (D0 + D1) - D1 * H_), z3.And(E_ > 0, D0 * (z3.RealVal(1) / E_) >= 0, D0 * (z3.RealVal(1) / E_) < 1))
        def pure():
            v.pc = []; v.mfacts = []; v.hint = None
            s_ = z3.Solver(); s_.set('timeout', 20000); s_.add(d0 > 0, d1 > 0, h >= 0, h < 1, e == 2 * (d0 + d1) - d1 * h); s_.add(z3.Not(z3.And(e > 0, z3.Implies(x * e == 1, z3.And(d0 * x >= 0, d0 * x < 1)))))
            v.oblige(z3.BoolVal(s_.check() == z3.unsat), 'elimination factor stays in [0,1)', 'lemma')
        v.scoped(pure)
        def hint(j):
            v.add(self.lemma(at(H, j), self.dur(j), self.dur(j + 1), at(E, j + 1)), True)
        v.induct(z3.IntVal(0), z3.simplify(n - 2), lambda j: z3.And(z3.Select(H, j) >= 0, z3.Select(H, j) < 1), 'elimination factors lie in [0,1)', tr(H), hint)
    def den(self, j): return z3.simplify(2 * (self.dur(j - 1) + self.dur(j)) - self.dur(j) * at(self.H, j - 1))
    def hdef(self, j): return z3.simplify(self.dur(j - 1) * (z3.RealVal(1) / at(self.E, j)))
    def gdef(self, j):
        p = self.s['pa']; d0, d1 = self.dur(j - 1), self.dur(j)
        r = 3 * ((at(p, j) - at(p, j - 1)) * d1 * (z3.RealVal(1) / d0) + (at(p, j + 1) - at(p, j)) * d0 * (z3.RealVal(1) / d1))
        return z3.simplify((r - d1 * at(self.G, j - 1)) * (z3.RealVal(1) / at(self.E, j)))
    def coef(self, j, power):
        p0, p1 = at(self.s['pa'], j), at(self.s['pa'], j + 1); d = self.dur(j); r = z3.RealVal(1) / d
        m0, m1 = at(self.M, j), at(self.M, j + 1); D = p1 - p0
        if power == 0: return p0
        if power == 1: return m0
        if power == 2: return 3 * D * r * r - (2 * m0 + m1) * r
        if power == 3: return -2 * D * r * r * r + (m0 + m1) * r * r
        return z3.RealVal(0)
    def defs(self, j):
        """junction between segments j and j+1"""
        v = self.v; j1 = z3.simplify(j + 1)
        H, G, M, E = self.H, self.G, self.M, self.E
        v.scan(z3.And(at(M, j) == 0, at(M, j1) == 0, at(H, j1) == 0, at(G, j1) == 0, at(H, j) == 0, at(E, j1) == 0, self.dur(j) == 0, self.dur(j1) == 0), 0)
        v.add(self.lemma(at(H, j), self.dur(j), self.dur(j1), at(E, j1)), True)
        return [(at(M, j), at(G, j) - at(H, j) * at(M, j1)), (at(M, j1), at(G, j1) - at(H, j1) * at(M, j + 2)), (at(H, j1), self.hdef(j1)), (at(G, j1), self.gdef(j1))], [(at(E, j1), self.den(j1))]
    def ends(self):
        n = self.s['n']
        self.v.scan(at(self.M, 0) == 0, 0)
        return [(at(self.M, 0), self.s['v0'])], [(at(self.M, n - 1), self.s['vN'])]

class Quartic(Witness):
    """order 4, two or more segments: cubics forward from the start, one quartic bump before the last segment"""
    def __init__(self, v, s, N, K):
        super().__init__(v, s, N, K)
        n = s['n']
        self.V, self.A, self.C3, self.C4 = (v.fresh(x, AR) for x in ('V', 'A', 'C3', 'C4'))
        v.add(z3.And(at(self.V, 0) == s['v0'], at(self.A, 0) == s['a0']), True)
    def coef(self, j, power):
        return [at(self.s['pa'], j), at(self.V, j), at(self.A, j) / 2, at(self.C3, j), at(self.C4, j)][power]
    def c3(self, j):
        """definition of C3[j], j before the last segment"""
        p = self.s['pa']; d = self.dur(j); r = z3.RealVal(1) / d
        return (at(p, j + 1) - at(p, j) - at(self.V, j) * d - at(self.A, j) / 2 * d * d) * r * r * r - at(self.C4, j) * d
    def vnext(self, j):
        d = self.dur(j); return at(self.V, j) + at(self.A, j) * d + 3 * at(self.C3, j) * d * d + 4 * at(self.C4, j) * d * d * d
    def anext(self, j):
        d = self.dur(j); return at(self.A, j) + 6 * at(self.C3, j) * d + 12 * at(self.C4, j) * d * d
    def defs(self, j):
        v = self.v; j1 = z3.simplify(j + 1)
        eqs = [(at(self.V, j1), self.vnext(j)), (at(self.A, j1), self.anext(j)), (at(self.C3, j), self.c3(j))]
        for a, b in eqs: v.add(a == b, True)       # definitions
        return eqs, []
    def ends(self):
        v = self.v; s = self.s; n = s['n']; p = s['pa']
        l, m = z3.simplify(n - 2), z3.simplify(n - 3)
        d1, d = self.dur(m), self.dur(l); r1, r = z3.RealVal(1) / d1, z3.RealVal(1) / d
        q = v.fresh('den', R); v.add(q == d1 + d, True)
        V, A = at(self.V, m), at(self.A, m)
        c = (at(p, m + 1) - at(p, m) - V * d1 - A / 2 * d1 * d1) * r1 * r1 * r1
        V1, A1, al = v.fresh('V1', R), v.fresh('A1', R), v.fresh('alpha', R)     # state at the last segment without the bump; its amplitude
        v.add(z3.And(V1 == V + A * d1 + 3 * c * d1 * d1, A1 == A + 6 * c * d1), True)
        E1 = at(p, n - 1) - at(p, l) - V1 * d - A1 / 2 * d * d; E2 = s['vN'] - V1 - A1 * d; E3 = s['aN'] - A1
        alpha = (12 * E1 - 6 * d * E2 + d * d * E3) / 6 * r1 * r1 * r * (z3.RealVal(1) / q)
        F1 = at(p, n - 1) - at(p, l) - at(self.V, l) * d - at(self.A, l) / 2 * d * d; F2 = s['vN'] - at(self.V, l) - at(self.A, l) * d
        defs = [(al, alpha), (at(self.C4, l), (F2 * d - 3 * F1) * r * r * r * r), (at(self.C3, l), (4 * F1 - F2 * d) * r * r * r),
                (at(self.V, l), self.vnext(m)), (at(self.A, l), self.anext(m)), (at(self.C3, m), self.c3(m)), (at(self.C4, m), al)]
        for a, b in defs: v.add(a == b, True)
        v.oblige(q > 0, 'bump amplitude does not divide by zero', 'lemma')
        st = defs[5:] + [(V1, V + A * d1 + 3 * c * d1 * d1), (A1, A + 6 * c * d1)]
        v.oblige_poly(self.vnext(m), V1 + al * d1 * d1 * d1, 'velocity after the bump', subs=st, kind='lemma')
        v.oblige_poly(self.anext(m), A1 + 6 * al * d1 * d1, 'acceleration after the bump', subs=st, kind='lemma')
        bump = [(at(self.V, l), V1 + al * d1 * d1 * d1), (at(self.A, l), A1 + 6 * al * d1 * d1)]
        return [(at(self.V, 0), s['v0']), (at(self.A, 0), s['a0'])], defs[1:3] + bump + [defs[0], (q, d1 + d)]

def polyrow(v, row, f, K):
    """sum over the entries of value * f(segment, power)"""
    out = z3.RealVal(0)
    for col, val in v.entries(row):
        for i in range(K):
            seg = quot(col - i, K)
            if seg is not None: break
        else: raise Undischarged('column %s is not a coefficient of a segment' % col)
        out = out + val * f(seg, K - 1 - i)
    return out

def solvable(v, s, N, A, b, W):
    """obligation: W solves the system, row by row"""
    n = s['n']; K = N + 1
    B = z3.simplify(z3.Select(b.d, z3.IntVal(0)))
    try: src = v.row_sources(A.d)
    except Undischarged as e: v.oblige(False, str(e), 'solvable'); return
    last = z3.simplify(n - 2)
    head, tail = W.ends()
    ta = s['ta']
    # every row is one of the sources
    r = v.fresh('row', I)
    alts = [r == x[1] if x[0] == 'one' else z3.And((r - x[1]) % x[2] == 0, r >= x[1], (r - x[1]) / x[2] < x[4]) for x in src]
    v.oblige(z3.Implies(z3.And(r >= 0, r < iv(A.r)), z3.Or(alts)), 'every row of the linear system is a known constraint', 'solvable')
    tsub = lambda *js: [(at(ta, j + 1), at(ta, j) + W.dur(j)) for j in js]
    for x in src:
        if x[0] == 'one':
            def one(x=x):
                lhs = v.resolve(polyrow(v, x[2], W.coef, K)); rhs = v.resolve(z3.Select(B, x[1]))
                # the rows of the first segment and of the last one
                v.oblige_poly(lhs, rhs, 'the linear system has a solution (row %s)' % x[1], subs=tail + tsub(last) + ([] if not isinstance(W, Quartic) else []) + head, kind='solvable')
            v.scoped(one)
        else:
            def many(x=x):
                j = v.fresh('junction', I)
                v.add(z3.And(j >= 0, j < x[4]), True)
                d1, d2 = W.defs(j) or ([], []) if not isinstance(W, Quintic) else ([], [])
                j1 = z3.simplify(j + 1)
                row = v.resolve_row(x[3](j))
                lhs = polyrow(v, row, W.coef, K); rhs = v.resolve(z3.Select(B, z3.simplify(x[1] + x[2] * j)))
                v.oblige_poly(v.resolve(lhs), rhs, 'the linear system has a solution (junction rows)', subs=d1 + d2 + tsub(j1, j), kind='solvable')
            v.scoped(many)

def verify_values(vm, N, K, what):
    """C05 / C06: values of a fit of two or more strictly increasing knots"""
    F = container_contracts(vm, N)
    ty = vm.P.strip(vm.P.refs[F.get('getActiveSplineIndexAtTime', 2)]['cls'])
    fid = F.get('setData', K)
    def run(v):
        s = call_fit(v, N, K, F, ty)
        n, ta, pa = s['n'], s['ta'], s['pa']
        v.add(n >= 2); increasing(v, s)
        # how many segments decides which boundary values can be honoured
        if N == 4 and K == 6 and v.decide(n == 2): acc_ends = False
        else: acc_ends = K == 6 and N >= 4
        vel_ends = K >= 4 and N >= 3
        smooth = K >= 4 and N >= 3
        W = [None]
        def on_solve(A, b, X):
            if W[0]: raise Undischarged('more than one linear system')
            def go():     # ghost: nothing about the witness is needed afterwards
                W[0] = Cubic(v, s, N, K) if not acc_ends else Quintic(v, s, N, K) if N == 5 else Quartic(v, s, N, K)
                solvable(v, s, N, A, b, W[0])
            v.scoped(go)
        v.on_solve = on_solve
        try: res = v.rval(v.call_user(s['fid'], s['this'], [s['t'], s['p']] + s['b']))
        finally: v.on_solve = None
        v.oblige(bv(res), 'the fit succeeds')
        d = Con(v, s['this'], N, F, None)
        m = z3.simplify(n - 1)
        v.oblige(d.n == m, 'one segment per knot interval')
        v.oblige_all(z3.IntVal(0), m, lambda j: z3.Select(d.D, j) == z3.Select(ta, j + 1) - z3.Select(ta, j), 'segment durations are the knot intervals')
        D = d.D
        v.addq(QF(z3.IntVal(0), m, lambda j: z3.Select(D, j) == z3.Select(ta, j + 1) - z3.Select(ta, j), [direct(D)]))
        v.oblige_all(z3.IntVal(0), m, lambda j: z3.Select(D, j) > 0, 'segment durations are positive')
        v.set_nonneg(D, m)
        v.induct(z3.IntVal(0), m, lambda j: SUM(D, j) == z3.Select(ta, j) - z3.Select(ta, z3.IntVal(0)), 'segment start times are the knot times', [direct(D)])
        v.oblige(SUM(D, m) == at(ta, m) - at(ta, 0), 'total of the durations')
        v.oblige(d.dur == at(ta, m) - at(ta, 0), 'total duration is last minus first knot time')
        # knots on the time axis of the curve: which segment, which local time
        i, k = v.fresh('knot', I), v.fresh('k', I)
        T = at(ta, i) - at(ta, 0)
        v.scan(SUM(D, i) == SUM(D, z3.simplify(i + 1)), 0); v.scan(SUM(D, k) == SUM(D, z3.simplify(k + 1)), 0)
        v.oblige(z3.Implies(z3.And(i >= 0, i < m, d.active(k, T)), z3.And(k == i, T - SUM(D, k) == 0)), 'an inner knot time is the start of its segment')
        v.oblige(z3.Implies(z3.And(i == m, d.active(k, T)), z3.And(k == m - 1, T - SUM(D, k) == z3.Select(D, k))), 'the last knot time is the end of the last segment')
        # the segments
        rows = Rows(v, s, N)
        def val(which, j, end):
            cs = [v.resolve(z3.Select(a, iv(j))) for a in d.C]
            x = v.resolve(z3.Select(ta, z3.simplify(iv(j) + 1)) - z3.Select(ta, iv(j))) if end else z3.RealVal(0)
            return poly(cs, x, which)
        two = v.decide(n == 2)
        fin = [(n, z3.IntVal(2))] if two else []
        last = z3.IntVal(0) if two else z3.simplify(n - 2)
        def eq(l, r, label, js):
            v.oblige_poly(v.resolve(l), v.resolve(r), label, hyps=rows.at(js), subs=fin)
        P_ = lambda i: at(pa, i)
        j = v.fresh('seg', I)
        eq(val(0, z3.IntVal(0), False), P_(0), 'the first segment starts at the first position', [])
        eq(val(0, last, True), P_(z3.simplify(last + 1)), 'the last segment ends at the last position', [])
        if not two:
            def inner():
                v.add(z3.And(j >= 0, j < n - 2), True); j1 = z3.simplify(j + 1)
                eq(val(0, j, True), P_(j1), 'a segment ends at its knot position', [j])
                eq(val(0, j1, False), P_(j1), 'the next segment starts at its knot position', [j])
                if smooth:
                    eq(val(1, j, True), val(1, j1, False), 'velocity is continuous at inner knots', [j])
                    eq(val(2, j, True), val(2, j1, False), 'acceleration is continuous at inner knots', [j])
            v.scoped(inner)
        if vel_ends:
            eq(val(1, z3.IntVal(0), False), s['v0'], 'start velocity as requested', [])
            eq(val(1, last, True), s['vN'], 'end velocity as requested', [])
        if acc_ends:
            eq(val(2, z3.IntVal(0), False), s['a0'], 'start acceleration as requested', [])
            eq(val(2, last, True), s['aN'], 'end acceleration as requested', [])
        if K == 2 or N < 3:
            def linear():
                v.add(z3.And(j >= 0, j < m), True)
                x = v.fresh('x', R); dj = v.fresh('dur', R); v.add(dj == at(ta, j + 1) - at(ta, j), True)
                cs = [v.resolve(z3.Select(a, j)) for a in d.C]
                v.oblige_poly((poly(cs, x, 0) - P_(j)) * dj, (P_(z3.simplify(j + 1)) - P_(j)) * x, 'the curve is the straight line between neighbouring knots', subs=[(at(ta, j + 1), at(ta, j) + dj)])
            if K == 2: v.scoped(linear)
    vm.verify(fid, run)

class Rows:
    """the equations the solution of the linear system satisfies"""
    def __init__(self, v, s, N): self.v = v; self.N = N
    def at(self, js):
        v = self.v; K = self.N + 1; out = []
        for A, b, X in v.solves:
            B = z3.simplify(z3.Select(b.d, z3.IntVal(0)))
            f = lambda seg, pw: z3.simplify(z3.Select(X, z3.simplify(K * seg + (K - 1 - pw))))
            for x in v.row_sources(A.d):
                if x[0] == 'one': out.append((v.resolve(polyrow(v, v.resolve_row(x[2]), f, K)), v.resolve(z3.Select(B, x[1]))))
                else:
                    for j in js:
                        if v.entails(z3.And(j >= 0, j < x[4])): out.append((v.resolve(polyrow(v, v.resolve_row(x[3](j)), f, K)), v.resolve(z3.Select(B, z3.simplify(x[1] + x[2] * j)))))
        return out
