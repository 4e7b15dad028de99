#!/usr/bin/env python3
"""For each planted bug whose property has unbounded contracts: run only the contracts on the patched tree and say which obligation fails.
usage: seedcontracts.py [ids]   (scratch trees under /tmp, removed afterwards)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for s in ids:
    d = os.path.join(HERE, 'seeded', s); p = json.load(open(os.path.join(d, 'meta.json')))['property']
    tree = '/tmp/sc-tree-' + s
    shutil.rmtree(tree, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', tree]); subprocess.check_call(['git', '-C', tree, 'apply', os.path.join(d, 'patch.diff')])
    code = ("import sys,json; sys.path.insert(0,%r); import check, shutil\n"
            "from engine import props\n" % HERE +
            "c=check.Check(%r,'quick')\n" % p +
            "if not props.PROPS[%r].get('ded'): print('-'); sys.exit()\n" % p +
            "c.run_ded(400); D=c.ded; shutil.rmtree(c.tmp)\n"
            "print('%s/%s' % (D['discharged'], D['obligations']), D['error'][:150], '; '.join(o['label']+' '+o['kind']+' '+o.get('detail','')[:40] for o in D['open'][:3]))\n")
    env = dict(os.environ, VERIF_REPO=tree)
    r = subprocess.run(['python3', '-c', code], env=env, capture_output=True, text=True, timeout=900, cwd=HERE)
    print(s, p, r.stdout.strip() or r.stderr[-300:], flush=True)
    shutil.rmtree(tree, ignore_errors=True)
