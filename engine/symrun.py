"""run one or more drivers of an extracted translation unit symbolically.
usage: symrun.py UNIT.json list PROP
       symrun.py UNIT.json run DRIVER [--json] [--thorough] [--budget S]"""
import sys, time, json, traceback
from sx import *
from models import MVM
from strmodel import StrVM
from quat import app

class PoseSym(StrVM):
    """bounded runs of code that uses the rotation library: its operations are uninterpreted terms"""
    OPS = {'operator*': 'MUL', 'exponentialMap': 'EXP', 'logarithmicMap': 'LOG', 'rotate': 'ROT', 'inverseRotate': 'IROT'}
    def contract_for(self, fid, r):
        nm = r['name'].split('::')
        return self.rot if nm[:-1] == ['kindr', 'RotationQuaternionPD'] and nm[-1] in self.OPS else None
    def apply_contract(self, c, fid, r, obj, vals): self.stats['assumed'].add(r['name']); return c(r, obj, vals)
    def parts(self, x):
        x = self.rval(x)
        if isinstance(x, Rec): return [rv(x.f[k]) for k in ('qw_', 'qx_', 'qy_', 'qz_')]
        return [rv(y) for y in (x if isinstance(x, Mat) else self.M(x)).e]
    def rot(self, r, obj, vals):
        nm = r['name'].split('::')[-1]; a = [] if nm == 'exponentialMap' else self.parts(obj)
        for x in vals: a = a + self.parts(x)
        o = app(self.OPS[nm], *a)
        return Mat(3, 1, o) if len(o) == 3 else Rec(self.P.strip(r['ret']), dict(zip(('qw_', 'qx_', 'qy_', 'qz_'), o)))

def drivers(P, prop):
    out = []
    for k, f in P.funcs.items():
        n = P.refs[k]['name'].split('::')[-1]
        for pre, bounded in (('drv_', False), ('drvb_', True)):
            if n.startswith(pre + prop + '_'): out.append((n[len(pre):], k, bounded))
    return sorted(out)

def explore_driver(P, name, fid, cfg, cls=StrVM):
    vm = cls(P, cfg)
    t = time.time(); err = None; complete = False
    try:
        complete = vm.explore(lambda v: v.call_user(fid, None, []), name)
        if not complete: err = 'path or time budget exhausted'
    except Unsupported as e:
        err = 'unsupported: %s (in %s)' % (e, vm.where)
    except z3.Z3Exception as e:
        err = 'solver: %s (in %s)' % (e, vm.where)
    except RecursionError as e:
        err = 'recursion'
    except Exception as e:
        err = 'engine: %s (in %s) %s' % (e, vm.where, traceback.format_exc()[-900:])
    return vm, complete and err is None, err, time.time() - t

def summary(P, name, bounded, vm, ok, err, t):
    st = {}; be = {}; labels = {}; bad = []
    for o in vm.obls.values():
        st[o.status] = st.get(o.status, 0) + 1
        if o.status == 'proved': be[o.backend] = be.get(o.backend, 0) + 1
        l = labels.setdefault(o.label, [0, 0]); l[0] += 1; l[1] += o.status == 'proved'
        if o.status != 'proved' and len(bad) < 40:
            bad.append({'label': o.label, 'kind': o.kind, 'status': o.status, 'where': o.where, 'detail': o.detail, 'goal': (o.goal or '')[:1500],
                        'model': {k: '%.17g' % float(v) for k, v in o.model.items()} if o.model is not None else None})
    return {'driver': name, 'bounded': bounded, 'complete': ok, 'error': err, 'status': st, 'backends': be, 'labels': labels, 'bad': bad,
            'paths': vm.stats['paths'], 'solver_calls': vm.stats['solver_calls'], 'solver_time': vm.stats['solver_time'],
            'functions': sorted(vm.stats['inlined']), 'assumed': sorted(vm.stats['assumed']), 'covered': vm.cover.get(name, 0), 'time': t}

if __name__ == '__main__':
    P = Program(sys.argv[1])
    if sys.argv[2] == 'list':
        print(json.dumps([[n, b] for n, k, b in drivers(P, sys.argv[3])])); sys.exit(0)
    args = sys.argv[3:]
    js = '--json' in args; budget = float(args[args.index('--budget') + 1]) if '--budget' in args else 600.0
    pat = args[0]; prop = pat.split('_')[0]
    for name, fid, b in drivers(P, prop):
        if not (name == pat if js else name.startswith(pat)): continue
        cfg = Config(deadline=time.time() + budget); cfg.thorough = '--thorough' in args
        r = summary(P, name, b, *explore_driver(P, name, fid, cfg, PoseSym if prop in ('C16', 'C18', 'C19') else StrVM))
        if js: print(json.dumps(r)); continue
        print(name, 'complete' if r['complete'] else 'INCOMPLETE', r['error'] or '', r['status'], 'paths', r['paths'], 'cov', r['covered'], '%.1fs' % r['time'])
        for o in r['bad'][:4]: print('   ', o['status'], o['label'], '|', o['where'], o['model'], (o['goal'] or '')[:200])
