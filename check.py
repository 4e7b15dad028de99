#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

usage: check.py PROP [--tier quick|thorough]      decide
       check.py --replay FILE                      replay a counterexample on the real code
       check.py --setup                            build the extractor
Exit 0: every obligation discharged (or, where a proof could not be redone, the labelled bounded
checks are clean).  Exit 1: VIOLATION line printed.  See DESIGN.md."""
import os, sys, json, time, subprocess, hashlib, re, shutil, tempfile, traceback, threading, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(V, 'engine'))
import props as PR

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

LIVE = set(); STOP = threading.Event()
def shk(cmd, timeout=None, env=None, cwd=None):
    """as sh, but ended at once when STOP is set (a failing input was found elsewhere)"""
    if STOP.is_set(): return -15, '', 'stopped'
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    LIVE.add(p)
    if STOP.is_set(): kill(p)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p); o, e = p.communicate(); return -9, o.decode('utf8', 'replace'), 'timeout'
    finally: LIVE.discard(p)
    return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
def stop_all():
    STOP.set()
    for p in list(LIVE): kill(p)

def extractor():
    src = os.path.join(V, 'extractor', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags']).decode().split()
    tmp = out + '.%d' % os.getpid()
    rc, o, e = sh(['clang++', '-O1'] + flags + ['-fno-rtti', '-w', src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1',
                   '/usr/lib/llvm-18/lib/libLLVM-18.so', '-Wl,-rpath,/usr/lib/llvm-18/lib'], 600)
    if rc: raise RuntimeError('extractor does not build: ' + e[-2000:])
    os.rename(tmp, out)
    return out

def literals(files):
    out = set()
    for f in files:
        try: s = open(os.path.join(REPO, f)).read()
        except OSError: continue
        s = re.sub(r'//.*|/\*[\s\S]*?\*/', '', s)
        for m in re.findall(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?)', s):
            try:
                v = float(m)
                if 0 < v < 1e6: out.update((v, v / 2, v + 1, v - 1))
            except ValueError: pass
    return sorted(out)[:400]

class Check:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.cfg = PR.PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.replays = os.path.join(V, 'replays'); os.makedirs(self.replays, exist_ok=True)
        self.notes = []; self.sym = []; self.nat = {}; self.ded = None
        self.harness = None; self.unit = None; self.dunit = None; self.hit = None; self.built = threading.Event()
        self.env = dict(os.environ, PYTHONHASHSEED='0')
        if tier == 'thorough': self.env['VF_THOROUGH'] = '1'
        self.env['VF_LITERALS'] = ' '.join('%.10g' % x for x in literals(self.cfg['files']))
    def log(self, s): print('[%6.1fs] %s' % (time.time() - self.t0, s), flush=True)

    # ---- building
    def build_native(self):
        c = self.cfg
        objs = []
        src = [os.path.join(V, 'drivers', c['driver']), os.path.join(V, 'drivers', 'vf_native.cpp')] + [os.path.join(REPO, s) for s in c.get('src', [])]
        inc = ['-I' + os.path.join(V, 'drivers')] + ['-I' + x for x in c.get('native_inc', [])] + ['-I' + os.path.join(REPO, x) for x in c.get('repo_inc', [])] + ['-I' + os.path.join(REPO, 'curves/include'), '-I/usr/include/eigen3']
        def comp(i):
            o = os.path.join(self.tmp, 'n%d.o' % i)
            return o, sh(['g++', '-std=c++14', c.get('opt', '-O1'), '-DVF_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-w'] + c.get('defs', []) + inc + ['-c', src[i], '-o', o], 800)
        with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(comp, range(len(src))))
        for o, (rc, so, se) in rs:
            if rc: return 'compile', se[:6000]
            objs.append(o)
        h = os.path.join(self.tmp, 'harness')
        rc, so, se = sh(['g++'] + objs + ['-o', h, '-lglog', '-lpthread'] + c.get('libs', []), 300)
        if rc: return 'link', se[:6000]
        self.harness = h
        return None, ''
    def extract(self, driver=None):
        c = self.cfg
        out = os.path.join(self.tmp, 'ded.json' if driver else 'unit.json')
        inc = ['-I' + os.path.join(V, 'shim'), '-I' + os.path.join(V, 'drivers')] + ['-I' + x for x in c.get('native_inc', [])] + ['-I' + os.path.join(REPO, x) for x in c.get('repo_inc', [])] + ['-I' + os.path.join(REPO, 'curves/include'), '-I' + REPO, '-I/usr/include/eigen3']
        rc, so, se = sh([extractor(), out, ':'.join([os.path.realpath(REPO) + '/', REPO + '/', os.path.join(V, 'drivers')] + c.get('native_inc', [])), os.path.join(V, 'drivers', driver or c['driver']), '--', '-std=c++14', '-DVF_EXTRACT'] + c.get('defs', []) + inc +
                        ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w'], 600)
        if rc or not os.path.exists(out): return (se or so)[:6000] or 'extractor failed'
        if driver: self.dunit = out
        else: self.unit = out
        return ''

    # ---- symbolic drivers
    def run_symbolic(self, budget):
        rc, so, se = sh([PY, os.path.join(V, 'engine', self.cfg.get('sym', 'symrun.py')), self.unit, 'list', self.prop], 120)
        try: ds = json.loads(so)
        except ValueError: self.notes.append('no driver list: ' + se[-300:]); return
        def one(d):
            cmd = ['bash', '-c', 'ulimit -v 8000000; exec "$@"', 'x', PY, os.path.join(V, 'engine', self.cfg.get('sym', 'symrun.py')), self.unit, 'run', d[0], '--json', '--budget', str(budget)] + (['--thorough'] if self.tier == 'thorough' else [])
            rc, so, se = shk(cmd, budget + 60, env=self.env)
            try: r = json.loads(so)
            except ValueError:
                r = {'driver': d[0], 'bounded': d[1], 'complete': False, 'error': 'engine ended: %s %s' % (rc, se[-400:]), 'status': {}, 'backends': {}, 'labels': {}, 'bad': [], 'paths': 0, 'solver_calls': 0, 'solver_time': 0, 'functions': [], 'assumed': [], 'covered': 0, 'time': budget}
            r['open'] = []
            self.built.wait()
            for b in r['bad']:  # refuted obligations: replay the solver's input on the real code
                if b['status'] != 'refuted' or b['model'] is None or not self.harness or self.hit: continue
                txt = 'driver %s\n# failed obligation: %s (in %s)\n' % (r['driver'], b['label'], b['where']) + ''.join('%s %s\n' % kv for kv in b['model'].items())
                tape = os.path.join(self.tmp, 'm_%s.txt' % r['driver']); open(tape, 'w').write(txt)
                hit, so = self.replay(tape)
                if hit and not self.hit: self.hit = ('%s: %s' % (b['label'], so), txt + '# %s\n' % so, 'cex'); stop_all()
                elif not hit: r['open'].append(b)
            return r
        with ThreadPoolExecutor(NCPU) as ex: self.sym = list(ex.map(one, ds))

    # ---- native sampling
    def run_native(self, secs, seed, tag='n'):
        out = os.path.join(self.tmp, 'tape_' + tag)
        rc, so, se = shk([self.harness, 'run', self.prop, str(secs), str(seed), out], secs + 300, env=self.env, cwd=self.tmp)
        return rc, so.strip(), out
    def sample(self, secs, i):
        r = self.run_native(secs, self.seed * 100 + i, 'n%d' % i)
        if r[0] == 1 and os.path.exists(r[2]) and not self.hit:
            self.hit = (r[1], open(r[2]).read(), 'run'); stop_all()
        return r
    def replay(self, tape):
        rc, so, se = sh([self.harness, 'replay', tape], 120, env=self.env, cwd=self.tmp)
        return rc == 1, so.strip()

    def violation(self, path, reason, found):
        self.verdict = (path, found, reason)

    def keep(self, text, tag):
        h = hashlib.sha256(text.encode()).hexdigest()[:10]
        p = os.path.join(self.replays, '%s-%s-%s.txt' % (self.prop, tag, h))
        open(p, 'w').write('# property %s; replay with: python3 %s --replay %s\n# prop %s\n' % (self.prop, os.path.join(V, 'check.py'), p, self.prop) + text)
        return p

    def run(self):
        self.verdict = None
        c = self.cfg; quick = self.tier == 'quick'
        res = {}
        def bx():
            try: res['x'] = self.extract()
            except Exception as e: res['x'] = 'extractor: %s' % e
        def bn():
            try: res['n'] = self.build_native()
            except Exception as e: res['n'] = ('error', str(e))
            self.built.set()
        ts = [threading.Thread(target=f) for f in (bx, bn)]
        for t in ts: t.start()
        early = {}
        def samp():  # sampling on the real code runs beside the proof
            ts[1].join()
            if not self.harness: return
            secs = c.get('nsecs', 8) if quick else c.get('tnsecs', 60)
            with ThreadPoolExecutor(2) as ex: early['r'] = list(ex.map(lambda i: self.sample(secs, i), range(2)))
        tn = threading.Thread(target=samp); tn.start()
        ts[0].join()
        if self.unit:
            self.log('extracted the code under contract')
            budget = c.get('budget', 200) if quick else c.get('tbudget', 1500)
            def ded():
                if not c.get('ded'): return
                try: self.run_ded(budget)
                except Exception as e: self.notes.append('deductive layer: %s' % traceback.format_exc()[-800:])
            td = threading.Thread(target=ded); td.start()
            try: self.run_symbolic(budget)
            except Exception as e: self.notes.append('symbolic layer: %s' % e)
            td.join()
        else: self.notes.append('extraction failed: ' + res['x'][:1500])
        ts[1].join(); tn.join()
        kind, msg = res['n']
        if kind in ('compile', 'link') and c.get('native_inc') and re.search(r'kindr|\bros\b|_msgs', msg):  # the stand-in library may lack what the code now uses
            self.notes.append('not decided: the code does not build against the stand-in libraries: ' + msg[:800]); return self.finish()
        if kind in ('compile', 'link'):
            p = self.keep('# the public interface of the property no longer compiles or links\n' + msg, 'build')
            self.violation(p, 'public interface does not %s' % kind, False)
            return self.finish()
        if self.hit:
            self.violation(self.keep(self.hit[1], self.hit[2]), self.hit[0], True); return self.finish()
        n_ob = sum(sum(r['status'].values()) for r in self.sym); n_pr = sum(r['status'].get('proved', 0) for r in self.sym)
        self.log('symbolic drivers: %d/%d obligations discharged in %d drivers' % (n_pr, n_ob, len(self.sym)))
        for r in self.sym:
            if not r['complete']: self.log('  driver %s incomplete: %s' % (r['driver'], (r['error'] or '')[:300]))
        bad = [(r, b) for r in self.sym for b in r['bad']]
        open_ref = [(r, b) for r in self.sym for b in r['open']]
        # 2. sampling on the real code (also checks the assumed library contracts)
        undecided = bool(open_ref) or any(b['status'] != 'proved' for _, b in bad) or any(not r['complete'] for r in self.sym) or not self.unit or (c.get('ded') and not (self.ded and self.ded.get('ok')))
        rs = early.get('r', [])
        if undecided or not quick:
            secs = (c.get('nsecs', 8) if quick else c.get('tnsecs', 60)) * (3 if undecided else 1)
            with ThreadPoolExecutor(NCPU) as ex: rs += list(ex.map(lambda i: self.sample(secs, i), range(2, 2 + NCPU)))
        if self.hit:
            self.violation(self.keep(self.hit[1], self.hit[2]), self.hit[0], True); return self.finish()
        for rc, so, out in rs:
            if rc not in (0, 1): self.notes.append('native harness: exit %s %s' % (rc, so[-200:]))
            m = re.search(r'evaluations=(\d+) discarded=(\d+) checks=(\d+) drivers=(\d+) min_per_driver=(\d+)', so)
            if m:
                for key, v in zip(('evaluations', 'discarded', 'checks'), m.groups()): self.nat[key] = self.nat.get(key, 0) + int(v)
                self.nat['drivers'] = int(m.group(4)); self.nat['min_per_driver'] = min(int(m.group(5)), self.nat.get('min_per_driver', 1 << 60))
        self.log('native runs: %s' % self.nat)
        # 3. deductive obligations that were refuted outright
        for b in self.ded_alarm(): open_ref.append((b, b))
        if open_ref:
            r, b = open_ref[0]
            txt = 'driver %s\n# failed obligation: %s (in %s)\n# verifier output: %s %s\n# goal: %s\n' % (r.get('driver', '-'), b['label'], b['where'], b['status'], b.get('detail', ''), b['goal'].replace('\n', ' '))
            if b.get('model'): txt += ''.join('%s %s\n' % kv for kv in b['model'].items())
            self.violation(self.keep(txt, 'obligation'), b['label'], False)
        return self.finish()

    def run_ded(self, budget):
        """the contracts of the property, one process per instantiation"""
        self.ded = {'ok': False, 'error': '', 'obligations': 0, 'discharged': 0, 'functions': {}, 'open': [], 'backends': {}, 'solver_time': 0.0, 'jobs': {}}
        D = self.ded
        e = self.extract(self.cfg['ded'])
        if e: D['error'] = 'extraction failed: ' + e[:600]; return
        dr = os.path.join(V, 'engine/dedrun.py')
        rc, so, se = sh([PY, dr, 'list', self.prop], 120)
        names = json.loads(so)
        def one(n):
            cmd = ['bash', '-c', 'ulimit -v 8000000; exec "$@"', 'x', PY, dr, self.dunit, self.prop, '--job', n, '--budget', str(budget)] + (['--thorough'] if self.tier == 'thorough' else [])
            rc, so, se = shk(cmd, budget + 60, env=self.env)
            try: return json.loads(so.strip().splitlines()[-1])
            except (ValueError, IndexError): return {'ok': False, 'error': 'ended: %s %s' % (rc, se[-400:]), 'obligations': 0, 'discharged': 0, 'functions': {}, 'open': [], 'backends': {}, 'solver_time': 0.0}
        with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(one, names))
        for n, r in zip(names, rs):
            for k in ('obligations', 'discharged', 'solver_time'): D[k] += r[k]
            D['functions'].update(r['functions']); D['open'] += r['open']
            for k, v in r['backends'].items(): D['backends'][k] = D['backends'].get(k, 0) + v
            D['jobs'][n] = {'ok': r['ok'], 'obligations': r['obligations'], 'discharged': r['discharged']}
            if r['error']: D['error'] += '%s: %s; ' % (n, r['error'])
        D['ok'] = bool(rs) and all(r['ok'] for r in rs)
        D['crash'] = any(r.get('crash') or (not r['ok'] and not r['open']) for r in rs)
        self.log('contracts: %s; %d/%d obligations discharged over %d functions' % ('all discharged' if D['ok'] else 'not complete: ' + D['error'][:600], D['discharged'], D['obligations'], len(D['functions'])))
    def ded_alarm(self):
        """open obligations that count as a violation: observable postconditions, with every loop on the
        path characterised exactly and every representation invariant intact (otherwise the failure
        may only mean that the code was rewritten in a way the contracts do not follow)"""
        D = self.ded
        if not D or D.get('ok') or D.get('crash'): return []
        if any(b['kind'] not in ('post', 'safety') or not b['detail'].startswith('not provable') for b in D['open']): return []
        return D['open']

    def finish(self):
        self.evidence()
        known = json.load(open(os.path.join(V, 'known_findings.json'))) if os.path.exists(os.path.join(V, 'known_findings.json')) else []
        for k in known:
            if k.get('status') == 'known' and k.get('property') == self.prop: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.verdict:
            path, found, reason = self.verdict
            self.log('violated: ' + reason[:300])
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if found else ' no-failing-input-found'), flush=True)
            return 1
        self.log('property %s: %s' % (self.prop, self.status))
        return 0

    def evidence(self):
        c = self.cfg
        ob = sum(sum(r['status'].values()) for r in self.sym); dis = sum(r['status'].get('proved', 0) for r in self.sym)
        backends = {}
        for r in self.sym:
            for k, v in r['backends'].items(): backends[k] = backends.get(k, 0) + v
        for k, v in (self.ded or {}).get('backends', {}).items(): backends[k] = backends.get(k, 0) + v
        funcs = sorted({f for r in self.sym for f in r['functions'] if f.startswith('curves::')})
        symok = bool(self.sym) and all(r['complete'] and r['covered'] > 0 and r['status'].get('proved', 0) == sum(r['status'].values()) for r in self.sym)
        dedok = bool(self.ded and self.ded.get('ok'))
        unbounded = symok and all(not r['bounded'] for r in self.sym) or dedok
        dedwhy = '' if dedok or not c.get('ded') else ' (contracts not all discharged on this run: %s)' % str((self.ded or {}).get('error'))[:300]
        self.status = ('violated' if self.verdict else 'not decided: nothing could be run' if not self.sym and not self.nat else 'proved: every obligation discharged' if unbounded and symok else
                       'bounded: all obligations of the bounded drivers discharged, no unbounded proof on this run' + dedwhy if symok else
                       'bounded: proof not redone completely (%s); bounded checks clean' % '; '.join(sorted({(r['error'] or 'undischarged obligation')[:120] for r in self.sym if not r['complete'] or r['bad']})) )
        assumptions = list(PR.COMMON_ASSUMPTIONS) + c.get('assumptions', [])
        for r in self.sym: assumptions += [a for a in r['assumed'] if a not in assumptions]
        cov = {'obligations': ob + (self.ded or {}).get('obligations', 0), 'discharged': dis + (self.ded or {}).get('discharged', 0),
               'checker_cmd': 'python3 check.py %s --tier %s' % (self.prop, self.tier),
               'trusted_base': PR.TRUSTED, 'status': self.status,
               'functions_under_contract': sorted(set(funcs) | set((self.ded or {}).get('functions', []))),
               'backends': backends, 'solver_time_s': round(sum(r['solver_time'] for r in self.sym) + (self.ded or {}).get('solver_time', 0), 2),
               'symbolic_drivers': [{'driver': r['driver'], 'scope': 'bounded shapes' if r['bounded'] else 'complete', 'complete': r['complete'], 'paths': r['paths'], 'obligations': sum(r['status'].values()), 'discharged': r['status'].get('proved', 0),
                                     'reachable_paths_checked': r['covered'], 'error': r['error'], 'labels': {k: v for k, v in r['labels'].items()}} for r in self.sym],
               'deductive': self.ded, 'native_runs_on_real_code': self.nat,
               'evaluations': self.nat.get('evaluations', 0)}
        lvl = c.get('level', 'proof')
        if lvl == 'proof' and not self.status.startswith(('proved', 'violated')):  # never counted as proved
            lvl = 'other'; cov['explanation'] = self.status
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': lvl, 'coverage': cov, 'assumptions': assumptions + self.notes,
              'wall_s': round(time.time() - self.t0, 1), 'violations': 1 if self.verdict else 0}
        if lvl == 'other': cov.setdefault('explanation', c.get('explanation', ''))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', self.prop + '.json'), 'w'), indent=1)

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup': print(extractor()); return 0
    if a and a[0] == '--replay':
        txt = open(a[1]).read(); prop = re.search(r'# prop (\w+)', txt).group(1)
        ck = Check(prop, 'quick'); kind, msg = ck.build_native()
        if kind: print(msg); return 1
        hit, so = ck.replay(os.path.abspath(a[1])); print(so); shutil.rmtree(ck.tmp, ignore_errors=True)
        return 1 if hit else 0
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    if PR.PROPS[a[0]].get('runner'):
        import importlib
        return importlib.import_module(PR.PROPS[a[0]]['runner']).main(a[0], tier)
    return Check(a[0], tier).run()
if __name__ == '__main__': sys.exit(main())
