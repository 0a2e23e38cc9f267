#!/usr/bin/env python3
"""Confirms a planted bug: tools/seed.py DIR [--keep]. DIR holds patch.diff, main.rs (or demo.sh), meta.json."""
import json, os, shutil, subprocess, sys
d = os.path.abspath(sys.argv[1])
here = os.path.dirname(os.path.abspath(__file__))
if not os.path.exists(d + '/demo.sh'):
    shutil.copy(here + '/demo.sh', d + '/demo.sh')
w = '/tmp/mut/seed'
os.makedirs(w, exist_ok=True)
r = w + '/repo'
subprocess.run(['rsync', '-a', '--delete', '--exclude', '/target', '/repo/', r + '/'], check=True)
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
res = {}
if '--noclean' not in sys.argv:
    p = sh('bash %s/demo.sh' % d)
    res['clean'] = p.returncode
    if p.returncode: print(p.stdout[-1500:])
p = sh('git apply %s/patch.diff' % d)
if p.returncode: print('patch', p.stdout); sys.exit(1)
p = sh('CARGO_TARGET_DIR=/tmp/mut/seed/target cargo test --workspace --no-fail-fast --offline 2>&1')
bad = [l for l in p.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
res['tests'] = 'ok' if not p.returncode else bad[:5]
p = sh('bash %s/demo.sh' % d)
res['patched'] = p.returncode
res['out'] = p.stdout[-300:]
m = json.load(open(d + '/meta.json'))
env = dict(os.environ, HCL_REPO=r)
for pid in [m['property']] + [a for a in sys.argv[2:] if a.startswith('P')]:
    p = subprocess.run([here + '/../check.sh', pid, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    res[pid] = (p.returncode, p.stdout[-500:])
print(d.split('/')[-1], json.dumps(res, indent=1))
