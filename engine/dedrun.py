"""verify the contracts of one property.  usage: dedrun.py UNIT.json PROP [--budget S] [--thorough] [--verbose]"""
import sys, time, json, traceback
from ded import *
import spec_container as SC, spec_fit as SF, spec_curves as SU, spec_manager as SM, spec_hermite as SH, spec_csv as ST, spec_pose as SP, spec_ros as SR, spec_save as SV

def jobs(prop):
    if prop == 'C04': return [('N=%d' % n, lambda vm, n=n: SC.verify_C04(vm, n)) for n in (1, 2, 3, 4, 5)]
    if prop == 'C08': return [('N=%d' % n, lambda vm, n=n: SC.verify_C08(vm, n)) for n in (1, 2, 3, 4, 5)] + jobs('C07')
    if prop == 'C07': return [('N=%d/%d' % (n, k), lambda vm, n=n, k=k: SF.verify_state(vm, n, (k,))) for n in (5, 4, 3, 2, 1) for k in (6, 4, 2)]
    if prop == 'C05': return [('N=5/6', lambda vm: SF.verify_values(vm, 5, 6, 'C05'))]
    if prop == 'C06': return [('N=%d/%d' % (n, k), lambda vm, n=n, k=k: SF.verify_values(vm, n, k, 'C06')) for n, k in ((4, 6), (4, 4), (3, 6), (3, 4), (2, 6), (2, 4), (1, 6), (1, 4), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2))]
    if prop in ('C09', 'C10'):
        f = SU.verify_C09 if prop == 'C09' else SU.verify_C10
        own = [('fit %d' % k, lambda vm, k=k: f(vm, k)) for k in ((0, 1, 2) if prop == 'C09' else (2, 1, 0, 3))] + [('curve', lambda vm: f(vm, None))]
        if prop == 'C09': own.append(('options', lambda vm: SU.verify_options(vm, 5)))
        return own + jobs('C05') + [j for j in jobs('C07') if j[0] == 'N=5/6'] + [('sequence', lambda vm: SC.verify_C08(vm, 5))]
    if prop == 'C11': return [(l[0], lambda vm, l=l: SM.verify_C11(vm, l)) for l in SM.C11_MANY + [SM.C11_REST]]
    if prop == 'C12': return [(l[0], lambda vm, l=l: SM.verify_C12(vm, l)) for l in SM.C12_JOBS]
    if prop == 'C14': return [(l[0], lambda vm, l=l: SH.verify_C14(vm, l)) for l in SH.C14_JOBS]
    if prop == 'C16': return [(l[0], lambda vm, l=l: SP.verify_C16(vm, l)) for l in SP.C16_JOBS]
    if prop == 'C18': return [(l[0], lambda vm, l=l: SR.verify_C18(vm, l)) for l in SR.C18_JOBS]
    if prop == 'C19': return [(l[0], lambda vm, l=l: SV.verify_C19(vm, l)) for l in SV.C19_JOBS]
    if prop == 'C15': return [(l[0], lambda vm, l=l: ST.verify_C15(vm, l)) for l in ST.C15_JOBS]
    return []

def main():
    if sys.argv[1] == "list": print(json.dumps([n for n, _ in jobs(sys.argv[2])])); return
    unit, prop = sys.argv[1], sys.argv[2]
    a = sys.argv[3:]
    budget = float(a[a.index('--budget') + 1]) if '--budget' in a else 300.0
    only = a[a.index('--job') + 1] if '--job' in a else None
    verbose = '--verbose' in a
    P = Program(unit)
    t0 = time.time()
    out = {'ok': True, 'error': '', 'obligations': 0, 'discharged': 0, 'functions': {}, 'refuted': [], 'open': [], 'backends': {}, 'solver_time': 0.0}
    for name, fn in jobs(prop):
        if only and only != name: continue
        vm = (ST.TextVM if prop in ('C15', 'C18', 'C19') else SP.PoseVM if prop == 'C16' else SM.ManVM if prop in ('C11', 'C12', 'C14') else SC.CVM)(P, Config(deadline=t0 + budget, solver_timeout=10000))
        vm.cfg.thorough = '--thorough' in a
        err = None; t1 = time.time()
        try: fn(vm)
        except Undischarged as e: err = 'undischarged: %s (in %s)' % (e, vm.where)
        except Unsupported as e: err = 'unsupported: %s (in %s)' % (e, vm.where)
        except (KeyError, AttributeError, IndexError, TypeError, AssertionError, z3.Z3Exception, RecursionError) as e: err = 'contract cannot be attached: %s %s' % (type(e).__name__, traceback.format_exc()[-1500:] if verbose else e)
        bad = [o for o in vm.obls.values() if o.status != 'proved']
        out['obligations'] += len(vm.obls); out['discharged'] += len(vm.obls) - len(bad); out['solver_time'] += vm.stats['solver_time']
        for o in vm.obls.values():
            if o.status == 'proved': out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
        for f, (n, d) in vm.proved_fns.items(): out['functions'][f] = [n, d]
        if err: out['ok'] = False; out['crash'] = True; out['error'] += '%s: %s; ' % (name, err)
        for o in bad[:20]:
            out['ok'] = False
            out['open'].append({'label': o.label, 'where': o.where, 'status': o.status, 'kind': o.kind, 'detail': o.detail, 'goal': o.goal or '', 'model': None})
        if verbose:
            print(name, 'err' if err else 'ok', err or '', 'obl', len(vm.obls), 'open', len(bad), 'paths', vm.stats['paths'], '%.1fs' % (time.time() - t1), 'solver %.1fs' % vm.stats['solver_time'])
            for f, x in vm.proved_fns.items(): print('   ', f, x)
            for o in bad[:10]: print('   OPEN', o.label, '|', o.where, '|', o.detail, '|', (o.goal or '')[:300])
    if out['open'] and not out['error']: out['error'] = 'undischarged: ' + '; '.join(sorted({o['label'] for o in out['open']}))[:600]
    print(json.dumps(out))
if __name__ == '__main__': main()
