"""Contracts of the CSV helpers (C15): files and matrices with any number of rows and fields."""
from texts import *

def row_term(F, n): return lift(z3.If(z3.And(QV >= 0, QV < n), S(F, QV), z3.IntVal(0)))
class Csv:
    def __init__(self, vm):
        self.vm = vm; P = vm.P; self.f = {}
        for k, r in P.refs.items():
            if k in P.funcs and r['name'].startswith('curves::'): self.f.setdefault(r['name'][8:], []).append(k)
        self.mt = P.strip(P.refs[self.get('writeCSV')]['ptypes'][1]); self.tt = P.strip(P.refs[self.get('writeTimeVectorCSV')]['ptypes'][1]); self.vt = P.strip(P.refs[self.get('writeTimeVectorCSV')]['ptypes'][2])
    def get(self, nm):
        c = self.f.get(nm, [])
        if len(c) != 1: raise Unsupported('function curves::%s not found' % nm)
        return c[0]
    def start(self, v):
        """an arbitrary file called FN (which may not exist)"""
        v.FN = v.fresh('FN', I)
        f = {'D': v.fresh('D', IAA), 'M': v.fresh('M', IA), 'L': v.fresh('L', I), 'F': v.fresh('F', IA), 'm': v.fresh('m', I), 'ex': v.fresh('exists', B)}
        v.add(z3.And(f['L'] >= 0, f['L'] < MAXN, f['m'] >= 0, f['m'] < MAXN))
        v.addq(QF(z3.IntVal(0), f['L'], lambda j: z3.And(S(f['M'], j) >= 0, S(f['M'], j) < MAXN), [direct(f['M'])]))
        v.file = Root(Rec(('file',), f), 'file'); return f
    # views of values
    def mat(self, o):
        """(rows, fields per row, fields) of a vector<vector<string>>"""
        v = self.vm; o = v.svec_of(o) if isinstance(o, CVec) else o
        N = X = None
        for p, a in o.lv.items():
            if a.sort() == IAA: X = a
            elif a.sort() == IA: N = a
        if N is None or X is None or len(o.lv) != 2: raise Unsupported('representation of a string matrix')
        return o.n, N, X
    def vecs(self, o):
        """(number, sizes, entries) of a vector<VectorXd>"""
        v = self.vm; o = v.svec_of(o) if isinstance(o, CVec) else o
        (N,) = [a for a in o.lv.values() if a.sort() == IA]; (X,) = [a for a in o.lv.values() if a.sort() == MSORT]
        return o.n, N, X
    def times(self, o):
        v = self.vm; o = v.svec_of(o) if isinstance(o, CVec) else o
        (a,) = o.lv.values(); return o.n, a
    def anymat(self, v, nm='m'):
        m = Root(v.symbolic(self.mt, nm), nm, self.mt); n, N, X = self.mat(m.load())
        v.addq(QF(z3.IntVal(0), n, lambda j: z3.And(S(N, j) >= 0, S(N, j) < MAXN), [direct(N)]))
        return m, n, N, X
    # ---- contracts for callers
    def write_contract(self, v, fid, r, obj, vals):
        n, N, X = self.mat(v.rval(vals[1])); nm = v.astid(v.need(vals[0])).f['t']
        j = v.fresh('row', I)
        v.oblige(n >= 1, 'precondition of writeCSV: at least one row', 'pre')
        v.oblige(z3.Implies(z3.And(j >= 0, j < n), S(N, j) >= 1), 'precondition of writeCSV: at least one field in each row', 'pre')
        if v.decide(nm == v.FN):
            D = v.fresh('!D', IAA); M = v.fresh('!M', IA)
            v.addq(QF(z3.IntVal(0), n, lambda i: z3.And(S(M, i) == S(N, i) - 1, S(D, i) == row_term(S(X, i), S(N, i))), [direct(M), direct(D)], name='written'))
            v.file.store(Rec(('file',), {'D': D, 'M': M, 'L': n, 'F': K0, 'm': z3.IntVal(0), 'ex': z3.BoolVal(True)}))
        return None
    def load_contract(self, v, fid, r, obj, vals):
        nm = v.astid(v.need(vals[0])).f['t']
        if not v.decide(nm == v.FN): raise Unsupported('another file is read')
        f = v.file.load().f
        v.oblige(f['ex'], 'precondition of loadCSV: the file exists', 'pre')
        D, M = GFile(f).view(); n = z3.simplify(nlines(f))
        o = v.symbolic(self.mt, '!csv'); k, N, X = self.mat(o)
        v.add(k == n, True)
        v.addq(QF(z3.IntVal(0), n, lambda i: z3.And(S(N, i) == nfields(S(D, i), S(M, i)), S(X, i) == row_term(S(D, i), S(N, i))), [direct(N), direct(X)], name='read'))
        return o

C15_JOBS = [['writeCSV'], ['loadCSV'], ['loadTimeVectorCSV'], ['loadTimeTimeVectorCSV'], ['writeTimeVectorCSV'], ['round trips']]
def verify_C15(vm, only):
    c = Csv(vm)
    def on(nm, fn, suffix=''):
        if nm in only: vm.verify(c.get(nm), fn, suffix)
    # ---- writeCSV
    def write(v):
        f0 = c.start(v); nm = v.fresh('name', I); m, n, N, X = c.anymat(v)
        v.add(n >= 1); v.addq(QF(z3.IntVal(0), n, lambda j: S(N, j) >= 1, [direct(N)]))
        v.call_user(c.get('writeCSV'), None, [tid(nm), m])
        f = v.file.load().f
        if not v.decide(nm == v.FN):
            for k in f: v.oblige(f[k] == f0[k], 'other files are untouched (%s)' % k)
            return
        v.oblige(f['L'] == n, 'one line per row')
        v.oblige(z3.And(f['m'] == 0, S(f['F'], z3.IntVal(0)) == 0), 'nothing after the last line')
        v.oblige(f['ex'], 'the file exists')
        r = v.fresh('r', I); q = v.fresh('q', I)
        v.oblige(z3.Implies(z3.And(r >= 0, r < n), S(f['M'], r) == S(N, r) - 1), 'one comma less than fields on each line')
        v.oblige(z3.Implies(z3.And(r >= 0, r < n, q >= 0, q < S(N, r)), S(S(f['D'], r), q) == S(S(X, r), q)), 'each field is written in its place')
    on('writeCSV', write)
    def write_refuses(v):
        c.start(v); m, n, N, X = c.anymat(v)
        v.add(n == 0); v.abort_ok = True
        v.call_user(c.get('writeCSV'), None, [tid(v.FN), m])
        v.oblige(False, 'an empty matrix is refused')
    on('writeCSV', write_refuses, ' [no rows]')
    # ---- loadCSV
    def load(v):
        f = c.start(v); v.add(f['ex'])
        o = v.rval(v.call_user(c.get('loadCSV'), None, [tid(v.FN)]))
        k, N, X = c.mat(o); D, M = GFile(f).view(); n = nlines(f)
        v.oblige(k == n, 'one row per line')
        r = v.fresh('r', I); q = v.fresh('q', I)
        v.oblige(z3.Implies(z3.And(r >= 0, r < n), S(N, r) == nfields(S(D, r), S(M, r))), 'one entry per field of the line')
        v.oblige(z3.Implies(z3.And(r >= 0, r < n, q >= 0, q < S(N, r)), S(S(X, r), q) == S(S(D, r), q)), 'each field is read into its place')
        g = v.file.load().f
        for x in g: v.oblige(g[x] == f[x], 'reading leaves the file alone (%s)' % x)
    on('loadCSV', load)
    def load_refuses(v):
        f = c.start(v); v.add(z3.Not(f['ex'])); v.abort_ok = True
        v.call_user(c.get('loadCSV'), None, [tid(v.FN)])
        v.oblige(False, 'a missing file is refused')
    on('loadCSV', load_refuses, ' [no file]')
    # ---- time/vector files
    vm.contracts[c.get('writeCSV')] = c.write_contract; vm.contracts[c.get('loadCSV')] = c.load_contract
    def shape(v, f):
        D, M = GFile(f).view(); n = z3.simplify(nlines(f))
        return n, (lambda i: nfields(S(D, i), S(M, i))), (lambda i, q: S(S(D, i), q))
    def reader(fn, off):
        def run(v):
            f = c.start(v); v.add(f['ex']); n, cnt, fld = shape(v, f)
            v.add(n >= 1); v.add(cnt(z3.IntVal(0)) >= off + 1)
            D, M = GFile(f).view()
            v.addq(QF(z3.IntVal(0), n, lambda j: cnt(j) >= cnt(z3.IntVal(0)), [direct(f['M']), direct(f['D'])]))
            ts = [Root(v.symbolic(c.tt, 't%d' % i), 't', c.tt) for i in range(off)]; vs = Root(v.symbolic(c.vt, 'v'), 'v', c.vt)
            v.call_user(c.get(fn), None, [tid(v.FN)] + [Ptr(t) for t in ts] + [Ptr(vs)])
            r = v.fresh('r', I); q = v.fresh('q', I); inr = z3.And(r >= 0, r < n); dim = cnt(z3.IntVal(0)) - off
            for i, t in enumerate(ts):
                k, a = c.times(t.load()); v.oblige(k == n, 'one time per row')
                v.oblige(z3.Implies(inr, S(a, r) == ATOF(fld(r, z3.IntVal(i)))), 'column %d is the time' % i)
            k, N, X = c.vecs(vs.load()); v.oblige(k == n, 'one vector per row')
            v.oblige(z3.Implies(inr, S(N, r) == dim), 'each vector has one entry per remaining column')
            v.oblige(z3.Implies(z3.And(inr, q >= 0, q < dim), S(S(X, r), q) == ATOF(fld(r, z3.simplify(q + off)))), 'the remaining columns are the vector, in order')
        return run
    on('loadTimeVectorCSV', reader('loadTimeVectorCSV', 1)); on('loadTimeTimeVectorCSV', reader('loadTimeTimeVectorCSV', 2))
    def reader_refuses(fn, off):
        def run(v):
            f = c.start(v); v.add(f['ex']); n, cnt, fld = shape(v, f)
            v.add(z3.Or(n == 0, cnt(z3.IntVal(0)) < off + 1)); v.abort_ok = True
            ts = [Root(v.symbolic(c.tt, 't%d' % i), 't', c.tt) for i in range(off)]; vs = Root(v.symbolic(c.vt, 'v'), 'v', c.vt)
            v.call_user(c.get(fn), None, [tid(v.FN)] + [Ptr(t) for t in ts] + [Ptr(vs)])
            v.oblige(False, 'an empty file or one with too few columns is refused')
        return run
    on('loadTimeVectorCSV', reader_refuses('loadTimeVectorCSV', 1), ' [too little data]'); on('loadTimeTimeVectorCSV', reader_refuses('loadTimeTimeVectorCSV', 2), ' [too little data]')
    def data(v):
        t = Root(v.symbolic(c.tt, 't'), 't', c.tt); x = Root(v.symbolic(c.vt, 'v'), 'v', c.vt)
        T, V = c.times(t.load()), c.vecs(x.load())
        v.addq(QF(z3.IntVal(0), V[0], lambda j: z3.And(S(V[1], j) >= 0, S(V[1], j) < (MAXN >> 1)), [direct(V[1])], always=[z3.IntVal(0)]))
        return t, x, T, V
    def good(v, T, V, dim):
        v.add(z3.And(T[0] == V[0], T[0] >= 1, dim >= 1, dim < MAXN)); v.addq(QF(z3.IntVal(0), T[0], lambda j: S(V[1], j) == dim, [direct(V[1])], always=[z3.IntVal(0)]))
    def wtv(v):
        c.start(v); t, x, T, V = data(v); dim = v.fresh('dim', I); good(v, T, V, dim)
        v.call_user(c.get('writeTimeVectorCSV'), None, [tid(v.FN), t, x])
        tv_post(v, v.file.load().f, T, V, dim, lambda g, l: v.oblige(g, l))
    def tv_post(v, f, T, V, dim, say):
        r = v.fresh('r', I); q = v.fresh('q', I); inr = z3.And(r >= 0, r < T[0])
        say(f['L'] == T[0], 'one line per sample'); say(z3.And(f['ex'], f['m'] == 0, S(f['F'], z3.IntVal(0)) == 0), 'nothing after the last line')
        say(z3.Implies(inr, S(f['M'], r) == dim), 'one comma per vector entry')
        say(z3.Implies(inr, S(S(f['D'], r), z3.IntVal(0)) == NUM(S(T[1], r))), 'the first column is the time')
        say(z3.Implies(z3.And(inr, q >= 0, q < dim), S(S(f['D'], r), z3.simplify(q + 1)) == NUM(S(S(V[2], r), q))), 'the later columns are the vector, in order')
    on('writeTimeVectorCSV', wtv)
    def wtv_refuses(v):
        c.start(v); t, x, T, V = data(v)
        j = v.fresh('j', I); v.add(z3.Or(T[0] != V[0], T[0] == 0, z3.And(j >= 0, j < V[0], S(V[1], j) != S(V[1], z3.IntVal(0))))); v.abort_ok = True
        v.call_user(c.get('writeTimeVectorCSV'), None, [tid(v.FN), t, x])
        v.oblige(False, 'times and vectors that do not match are refused')
    on('writeTimeVectorCSV', wtv_refuses, ' [no match]')
    # ---- what the contracts give together
    if 'round trips' in only:
        def matrix(v):
            c.start(v); m, n, N, X = c.anymat(v); v.add(n >= 1)
            v.addq(QF(z3.IntVal(0), n, lambda j: z3.And(S(N, j) >= 1, S(S(X, j), S(N, j) - 1) != 0), [direct(N)]))     # no row ends with an empty field
            c.write_contract(v, None, None, None, [tid(v.FN), m])
            k, N2, X2 = c.mat(c.load_contract(v, None, None, None, [tid(v.FN)]))
            r = v.fresh('r', I); q = v.fresh('q', I)
            v.oblige(k == n, 'the matrix read back has the rows written')
            v.oblige(z3.Implies(z3.And(r >= 0, r < n), S(N2, r) == S(N, r)), 'each row read back has the fields written')
            v.oblige(z3.Implies(z3.And(r >= 0, r < n, q >= 0, q < S(N, r)), S(S(X2, r), q) == S(S(X, r), q)), 'each field reads back')
        vm.verify(c.get('loadCSV'), matrix, ' [after writeCSV]')

        def vectors(fn, off):
            def run(v):
                c.start(v); t, x, T, V = data(v); dim = v.fresh('dim', I); good(v, T, V, dim); v.add(dim >= off)
                D = v.fresh('!D', IAA); M = v.fresh('!M', IA)       # contract of writeTimeVectorCSV
                row = lambda i: lift(z3.If(QV == 0, NUM(S(T[1], i)), z3.If(z3.And(QV >= 1, QV <= dim), NUM(S(S(V[2], i), QV - 1)), z3.IntVal(0))))
                v.addq(QF(z3.IntVal(0), T[0], lambda i: z3.And(S(M, i) == dim, S(D, i) == row(i)), [direct(M), direct(D)]))
                f = {'D': D, 'M': M, 'L': T[0], 'F': K0, 'm': z3.IntVal(0), 'ex': z3.BoolVal(True)}; v.file.store(Rec(('file',), f))
                n, cnt, fld = shape(v, f); j = v.fresh('j', I)       # contract of the reader
                v.oblige(z3.And(n >= 1, cnt(z3.IntVal(0)) >= off + 1), 'precondition of %s: a row with enough columns' % fn, 'pre')
                v.oblige(z3.Implies(z3.And(j >= 0, j < n), cnt(j) >= cnt(z3.IntVal(0))), 'precondition of %s: no row is shorter than the first' % fn, 'pre')
                r = v.fresh('r', I); q = v.fresh('q', I); inr = z3.And(r >= 0, r < T[0])
                v.oblige(n == T[0], 'as many samples as written')
                v.oblige(z3.Implies(inr, ATOF(fld(r, z3.IntVal(0))) == S(T[1], r)), 'each time reads back')
                if off == 2: v.oblige(z3.Implies(inr, ATOF(fld(r, z3.IntVal(1))) == S(S(V[2], r), z3.IntVal(0))), 'the second time is the first entry written')
                v.oblige(cnt(z3.IntVal(0)) - off == dim - (off - 1), 'the vectors have the dimension written')
                v.oblige(z3.Implies(z3.And(inr, q >= 0, q < dim - (off - 1)), ATOF(fld(r, z3.simplify(q + off))) == S(S(V[2], r), z3.simplify(q + (off - 1)))), 'each vector entry reads back')
            return run
        for fn, off in (('loadTimeVectorCSV', 1), ('loadTimeTimeVectorCSV', 2)): vm.verify(c.get(fn), vectors(fn, off), ' [after writeTimeVectorCSV]')
