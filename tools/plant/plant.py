"""usage: plant.py FILE [ids]  -- FILE defines BUGS = [dict(id, property, edits=[(file,old,new)], demo, needs, breaks)]"""
import json, os, shutil, subprocess, sys
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    w = '/tmp/plant/w/' + b['id']
    shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/plant/w', exist_ok=True)
    sh('cp -a /repo ' + w)
    ok = True
    for f, o, n in b['edits']:
        p = w + '/webauthn_rp/' + f; s = open(p).read()
        if s.count(o) != 1 and not b.get('multi'): print(b['id'], 'EDIT matches', s.count(o), repr(o[:60])); ok = False; break
        open(p, 'w').write(s.replace(o, n))
    if not ok: shutil.rmtree(w); continue
    d = '/verif/seeded/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
    shutil.copy('/tmp/plant/kit.py', d)
    if 'android' in b['demo']: shutil.copy('/tmp/plant/android.py', d)
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom kit import *\n\n' + b['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    clean = sh('cd /repo && bash %s/demo.sh' % d)
    pat = sh('cd %s && bash %s/demo.sh' % (w, d))
    t = sh('cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -4' % w)
    chk = sh('cd /verif && PBT_REPO=%s ./run.sh %s' % (w, b['property'])) 
    print(b['id'], 'clean', clean.returncode, 'patched', pat.returncode, '| tests:', t.stdout.strip().splitlines()[-1], '| check rc', chk.returncode, chk.stdout.strip().splitlines()[-1][:150], flush=True)
    if clean.returncode: print(clean.stdout)
    if pat.returncode == 0: print('   NOT SHOWN', pat.stdout)
    shutil.rmtree(w)
