"""Thread-modular verification of KeyGenerator::getNextKey (rely/guarantee with lock ownership).

Every call is run once, symbolically, against an arbitrary environment of other callers:
  rely       whenever this thread holds no lock (and before every atomic operation) the other
             threads may have moved each shared counter to any value that is not smaller;
  guarantee  every locked section or atomic operation of this call leaves the counter not smaller,
             and the returned key lies in the interval (c0+d, c1+d] that one of its sections moved
             the counter c across (d is 0 or -1, the same for all calls);
  ownership  every access to non-atomic shared state holds one common static lock.
Intervals claimed by different calls are disjoint, so the keys are pairwise distinct.
CLI as symrun.py."""
import sys, time, json
from sx import *
from models import MVM
import symrun
CAP = 1 << 62
MUTEX = ('mutex', 'recursive_mutex', 'timed_mutex', 'spinlock')
GUARD = ('lock_guard', 'unique_lock', 'scoped_lock')

class Shared(Root):
    def __init__(s, vm, vid, name, t, atomic): super().__init__(None, name, t); s.vm = vm; s.vid = vid; s.atomic = atomic
    def load(s):
        if not s.atomic: s.vm.access(s, False)
        return s.v
    def store(s, v):
        if s.atomic: raise Unsupported('plain store to an atomic')
        s.vm.access(s, True); s.v = v
class Guard:
    def __init__(s, lock, owned): s.lock = lock; s.owned = owned

class CVM(MVM):
    cand = None
    def reset_path(self, prefix):
        super().reset_path(prefix)
        self.held = []; self.guards = []; self.sections = []; self.snap = None; self.shared = {}
    # ---- shared variables
    def arith(self, t):
        x = self.P.T(self.P.strip(t)); return x['k'] == 'builtin' or x['k'] == 'enum' or x['k'] == 'ptr'
    def atomic_of(self, t):
        x = self.P.T(self.P.strip(t))
        if x['k'] == 'rec' and x['name'] in ('std::atomic', 'boost::atomic', 'std::__atomic_base', 'boost::atomics::atomic'): return x['args'][0]['t'] if x.get('args') else None
        return None
    def global_root(self, vid, name, t, tls):
        T = self.P.T(t)
        if T.get('const'): return None
        at = self.atomic_of(t)
        if at is None and not self.arith(t): return None
        vt = at if at is not None else self.P.strip(t)
        v = self.symbolic(vt, name)
        if isinstance(v, z3.ArithRef) and v.sort() == I: self.add(v <= CAP)
        if tls: return Root(v, name, vt)
        s = Shared(self, vid, name, vt, at is not None); s.v = v
        self.shared[vid] = s
        if self.snap is not None and at is None: self.snap[vid] = v
        self.info.setdefault(name, {'atomic': at is not None, 'locks': None, 'written': False, 'int': bool(self.P.T(vt).get('int'))})
        return s
    def decl(self, d):
        if d.get('static') and d['id'] not in self.globals:
            r = self.global_root(d['id'], d['name'], d['type'], d.get('tls'))
            if r is not None: self.globals[d['id']] = r
        k = len(self.guards)
        t = self.P.T(self.P.strip(d['type']))
        if t['k'] == 'rec' and self.P.rec_of(self.P.strip(d['type'])) is not None and any(self.P.refs[m].get('dtor') and m in self.P.funcs for m in self.P.rec_of(self.P.strip(d['type']))['methods']):
            raise Unsupported('object with a destructor')
        super().decl(d)
        self.scopes[-1] += self.guards[k:]; del self.guards[k:]
    def x_var(self, e):
        i = e['id']
        if e.get('g') and i not in self.globals and i in self.P.vars:
            v = self.P.vars[i]
            r = self.global_root(i, v['name'], v['type'], v.get('tls'))
            if r is not None: self.globals[i] = r
        return super().x_var(e)
    scopes = [[]]
    def block(self, s):
        self.scopes.append([])
        try: super().block(s)
        finally:
            for g in reversed(self.scopes.pop()):
                if g.owned: self.release(g.lock); g.owned = False
    def stmt(self, s):
        if s is not None and s['k'] == 'expr':
            k = len(self.guards)
            try: super().stmt(s)
            finally:
                for g in self.guards[k:]:
                    if g.owned: self.release(g.lock)
                del self.guards[k:]
        else: super().stmt(s)
    # ---- locks
    def lock_id(self, v):
        if isinstance(v, Ptr): v = v.lv
        if not isinstance(v, LV): return None
        r, p = v.root()
        for k, g in self.globals.items():
            if g is r and not (self.P.vars.get(k) or {}).get('tls'): return (k, str(p))
        return ('local', r.id)
    def acquire(self, l):
        if l in self.held: self.oblige(False, 'lock is not taken twice', 'safety')
        if not any(x[0] != 'local' for x in self.held) and l[0] != 'local': self.env(False)
        self.held.append(l)
    def release(self, l):
        if l in self.held: self.held.remove(l)
        if not any(x[0] != 'local' for x in self.held): self.close()
    def env(self, atomic):
        for s in self.shared.values():
            if s.atomic != atomic: continue
            v = self.symbolic(s.t, s.name)
            if isinstance(v, z3.ArithRef) and v.sort() == I: self.add(z3.And(v >= s.v, v <= CAP))
            s.v = v
        if not atomic: self.snap = {k: s.v for k, s in self.shared.items() if not s.atomic}
    def close(self):
        if self.snap is None: return
        for k, v in self.snap.items():
            s = self.shared[k]
            if s.v is not v: self.section(s, v, s.v)
        self.snap = None
    def section(self, s, a, b):
        if s.name != self.cand[0]: return
        self.oblige(b >= a, 'no section moves the counter back', 'guarantee')
        self.sections.append((a, b))
    def access(self, s, w):
        i = self.info[s.name]; h = {x for x in self.held if x[0] != 'local'}
        i['locks'] = h if i['locks'] is None else i['locks'] & h
        if w: i['written'] = True
    # ---- models
    def model(self, fid, r, name, cls, obj, vals, e):
        sh = r['short']; c = cls.split('::')[-1]
        if cls and ('atomic' in cls) and (cls.startswith('std::') or cls.startswith('boost::')):
            o = obj
            while isinstance(o, Sub): o = o.p
            if not isinstance(o, Shared):
                if isinstance(o, Root) and isinstance(o.v, z3.ArithRef): o2 = o
                else: raise Unsupported('atomic object')
            self.env(True)
            old = o.v; op = r.get('op') or sh
            T = o.t
            def put(v):
                v = self.fit(z3.simplify(v), T); o.v = v
                if isinstance(o, Shared): self.info[o.name]['written'] = True; self.section(o, old, v)
                return v
            if sh in ('load',) or sh.startswith('operator ') and not vals: return old
            if sh == 'store': put(self.rval(vals[0])); return None
            if sh == 'exchange': put(self.rval(vals[0])); return old
            if sh == 'fetch_add': put(old + self.rval(vals[0])); return old
            if sh == 'fetch_sub': put(old - self.rval(vals[0])); return old
            if op == '++': return (lambda n: old if vals else n)(put(old + 1))
            if op == '--': return (lambda n: old if vals else n)(put(old - 1))
            if op == '+=': return put(old + self.rval(vals[0]))
            if op == '-=': return put(old - self.rval(vals[0]))
            if op == '=': return put(self.rval(vals[0]))
            raise Unsupported('atomic ' + sh)
        if c in MUTEX:
            if sh == 'lock': self.acquire(self.lock_id(obj)); return None
            if sh == 'unlock': self.release(self.lock_id(obj)); return None
            raise Unsupported('mutex ' + sh)
        if c in GUARD:
            g = self.rval(obj)
            if not isinstance(g, Guard): raise Unsupported('guard')
            if sh == 'lock' and not g.owned: self.acquire(g.lock); g.owned = True; return None
            if sh == 'unlock' and g.owned: self.release(g.lock); g.owned = False; return None
            if sh == 'owns_lock' or sh.startswith('operator bool'): return bv(g.owned)
            raise Unsupported('guard ' + sh)
        if name.startswith('std::this_thread') or name.startswith('boost::this_thread'): return None
        return super().model(fid, r, name, cls, obj, vals, e)
    def model_ctor(self, ty, fid, r, vals, e):
        n = self.P.T(ty)['name']; c = n.split('::')[-1]
        if c in GUARD and (n.startswith('std::') or n.startswith('boost::')):
            if not vals: g = Guard(None, False)
            else:
                l = self.lock_id(vals[0])
                tag = self.P.T(self.P.strip(r['ptypes'][1]))['name'].split('::')[-1] if len(r['ptypes']) > 1 else ''
                if len(vals) > 1 and tag not in ('adopt_lock_t', 'defer_lock_t'): raise Unsupported('lock with several arguments')
                g = Guard(l, tag != 'defer_lock_t')
                if not tag: self.acquire(l)
            self.guards.append(g)
            return g
        if c in MUTEX: return Opaque(n)
        if self.atomic_of(ty) is not None: return self.rval(vals[0]) if vals else self.zero(self.atomic_of(ty))
        return super().model_ctor(ty, fid, r, vals, e)
    def call(self, fid):
        self.scopes = [[]]
        res = self.rval(self.call_user(fid, None, []))
        self.close()
        d = self.cand[1]
        self.oblige(z3.Or([z3.And(a + d < res, res <= b + d) for a, b in self.sections] or [z3.BoolVal(False)]), 'the key lies in the interval claimed by one section of this call', 'guarantee')

def main():
    P = Program(sys.argv[1])
    if sys.argv[2] == 'list': print(json.dumps([['C13_claim', False]])); return
    budget = float(sys.argv[sys.argv.index('--budget') + 1]) if '--budget' in sys.argv else 300.0
    fids = P.find('curves::KeyGenerator::getNextKey')
    best = None; t0 = time.time()
    info = {}
    def run(cand):
        vm = CVM(P, Config(deadline=t0 + budget)); vm.cand = cand; vm.info = info
        err = None; ok = False
        try: ok = vm.explore(lambda v: v.call(fids[0]), 'C13_claim')
        except Unsupported as e: err = 'unsupported: %s (in %s)' % (e, vm.where)
        except Exception as e: err = 'engine: %r (in %s)' % (e, vm.where)
        return vm, ok and err is None, err
    vm, ok, err = run(('?', 0))
    if err is None:
        cands = [(n, d) for n, i in info.items() if i['int'] for d in (0, -1)] or [('?', 0)]
        for c in cands:
            vm, ok, err = run(c)
            bad = sum(o.status != 'proved' for o in vm.obls.values()) + (err is not None) * 100
            if best is None or bad < best[0]: best = (bad, c, vm, ok, err)
            if bad == 0: break
        bad, c, vm, ok, err = best
    for n, i in info.items():
        if not i['atomic']:
            good = not i['written'] or bool(i['locks'])
            vm.obls[('own', n)] = Obligation('every access to %s holds one common static lock' % n, 'ownership', 'proved' if good else 'refuted', '' if good else 'two calls can access it at the same time', 0.0, 'lockset', None if good else None, (), 'curves::KeyGenerator::getNextKey', n)
    # the counter is touched by nothing else in the unit
    def uses(x, out):
        if isinstance(x, dict):
            if x.get('k') == 'var' and x.get('g'): out.add(x['name'])
            for v in x.values(): uses(v, out)
        elif isinstance(x, list):
            for v in x: uses(v, out)
    inl = vm.stats['inlined']
    for k, f in P.funcs.items():
        if P.refs[k]['name'] in inl or not P.refs[k]['name'].startswith('curves'): continue
        o = set(); uses(f, o)
        if o & {n for n, i in info.items() if i['written']} and err is None: err = 'shared state is also used by ' + P.refs[k]['name']; ok = False
    r = symrun.summary(P, 'C13_claim', False, vm, ok, err, time.time() - t0)
    r['assumed'] = sorted(set(r['assumed']) | {'boost/std mutexes give mutual exclusion, std::atomic operations are indivisible, static locals are initialised once', 'fewer than 2^62 keys are drawn'})
    for b in r['bad']: b['model'] = None
    print(json.dumps(r) if '--json' in sys.argv else json.dumps(r, indent=1))
if __name__ == '__main__': main()
