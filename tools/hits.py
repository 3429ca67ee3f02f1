"""How often each check reaches each line of the library (to find thinly explored refusals).

usage: hits.py CHECK OUT.json [SCALE]     one check, in one process, counting every line executed
       hits.py report DIR                 lines by the most often any one check reaches them, rarest first
"""
import collections
import glob
import json
import os
import runpy
import sys

if sys.argv[1] == 'report':
    best = {}
    for f in sorted(glob.glob(sys.argv[2] + '/*.json')):
        d = json.load(open(f))
        for k, n in d['lines'].items():
            n = n / d['scale']
            best.setdefault(k, []).append((n, d['check']))
    src = {}
    rows = []
    for k, v in best.items():
        f, l = k.rsplit(':', 1)
        if f not in src:
            src[f] = open(os.path.join('/repo/webauthn_rp', f)).read().split('\n')
        v.sort(reverse=True)
        rows.append((v[0][0], f, int(l), src[f][int(l) - 1].strip(), v[:3]))
    for n, f, l, t, v in sorted(rows):
        print('%8d %s:%d %s   %s' % (n, f, l, t[:60], ' '.join('%s=%d' % (c, m) for m, c in v)))
    sys.exit()

check, out = sys.argv[1:3]
scale = float(sys.argv[3]) if len(sys.argv) > 3 else 0.1
counts = collections.Counter()
mon = sys.monitoring
mon.use_tool_id(4, 'hits')


def line(code, n):
    f = code.co_filename
    i = f.find('/webauthn_rp/')
    if i < 0:
        return mon.DISABLE
    counts[f[i + 13:] + ':%d' % n] += 1


mon.register_callback(4, mon.events.LINE, line)
mon.set_events(4, mon.events.LINE)
exit_ = os._exit


def leave(rc):
    with open('%s.%d' % (out, os.getpid()), 'w') as f:
        json.dump(counts, f)
    exit_(rc)


os._exit = leave  # the shards run in forked processes
os.register_at_fork(after_in_child=counts.clear)
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.getcwd())
sys.argv = ['pbt', check, '--procs', '2', '--scale', str(scale)]
try:
    runpy.run_module('pbt', run_name='__main__')
except SystemExit:
    pass
for part in glob.glob(out + '.*'):
    counts.update(json.load(open(part)))
    os.remove(part)
mon.set_events(4, 0)
json.dump({'check': check, 'scale': scale, 'lines': counts}, open(out, 'w'))
