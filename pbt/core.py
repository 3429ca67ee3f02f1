"""Check definitions, shard execution, evidence and replay."""
import base64
import collections
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text_of(v):
    """repr(v), also for integers longer than the interpreter's default limit."""
    limit = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    try:
        return repr(v)
    finally:
        sys.set_int_max_str_digits(limit)


class Violation(AssertionError):
    pass


class Prop:
    def __init__(self, fn, strategy, quick, thorough, shards, name=None):
        self.fn, self.strategy, self.quick, self.thorough = fn, strategy, quick, thorough
        self.shards = shards
        self.name = name or fn.__name__


def prop(strategy, quick, thorough=None, shards=8, name=None):
    """Declare body(case, rec) as a property over `strategy` (cases are plain picklable data)."""
    def deco(fn):
        p = Prop(fn, strategy, quick, thorough or quick * 12, shards, name)
        mod = sys.modules[fn.__module__]
        if not hasattr(mod, 'PROPS'):
            mod.PROPS = []
        mod.PROPS.append(p)
        return fn

    return deco


class Rec:
    """Per-shard recorder handed to property bodies."""

    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.keys = set()
        self.samples = []
        self.first_failure = None
        self.last_failure = None
        self._case = None

    def begin(self, case):
        self.evaluations += 1
        self._case = case

    def label(self, s):
        self.labels[str(s)] += 1

    def nt(self, key=None, sample=None):
        """The current case is non-trivial; `key` identifies it among the distinct ones."""
        text = text_of(self._case if key is None else key)
        h = hashlib.blake2b(text.encode('utf-8', 'backslashreplace'), digest_size=8).digest()
        if h not in self.keys:
            self.keys.add(h)
            if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.keys) % 50 == 0):
                s = text_of(self._case if sample is None else sample)
                self.samples.append(s if len(s) <= 1500 else s[:1500] + '...')

    def fail(self, message, /, **info):
        raise Violation(message + ''.join('\n  %s = %s' % (k, short(v)) for k, v in info.items()))

    def check(self, cond, message, /, **info):
        if not cond:
            self.fail(message, **info)


def short(v, n=600):
    s = text_of(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def load(pid):
    mod = importlib.import_module('pbt.checks.' + pid.lower())
    return mod


def shard_seed(seed, pid, name, shard):
    t = '%s|%s|%s|%s' % (seed, pid, name, shard)
    return int.from_bytes(hashlib.sha256(t.encode()).digest()[:8], 'big')


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(1000)


def run_shard(args):
    """Run one shard of one property test; returns a plain result dictionary."""
    pid, index, shard, n, seed = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45
    limit_memory()
    signal.signal(signal.SIGALRM, _alarm)
    p = load(pid).PROPS[index]
    rec = Rec()
    state = {'first': None, 'last': None}
    s = shard_seed(seed, pid, p.name, shard)

    def body(case):
        rec.begin(case)
        signal.alarm(CASE_LIMIT)
        try:
            p.fn(case, rec)
        except (hypothesis.errors.HypothesisException, KeyboardInterrupt):
            raise
        except BaseException as e:
            f = {'case': case, 'error': '%s: %s' % (type(e).__name__, e),
                 'trace': traceback.format_exc()[-4000:]}
            if state['first'] is None:
                state['first'] = f
            state['last'] = f
            raise
        finally:
            signal.alarm(0)

    test = given(p.strategy() if callable(p.strategy) else p.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                    report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(s)(test)
    t0 = time.time()
    error = None
    try:
        test()
    except BaseException:
        error = traceback.format_exc()[-6000:]
    out = {'test': p.name, 'index': index, 'shard': shard, 'n': n, 'seed': seed,
           'evaluations': rec.evaluations, 'labels': dict(rec.labels), 'keys': rec.keys,
           'samples': rec.samples, 'wall': time.time() - t0, 'failure': None, 'harness': None}
    if state['first'] is not None:
        out['failure'] = dict(state['last'], first_case=state['first']['case'],
                              first_error=state['first']['error'])
        for k in ('case', 'first_case'):
            c = out['failure'][k]
            out['failure'][k] = text_of(c)
            out['failure'][k + '_pickle'] = base64.b64encode(pickle.dumps(c)).decode()
    elif error is not None:
        out['harness'] = error
    return out


def write_replay(pid, r):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, r['test']))
    f = r['failure']
    with open(path, 'w') as fh:
        json.dump({'property': pid, 'test': r['test'], 'index': r['index'], 'error': f['error'],
                   'case': f['case'], 'trace': f['trace'], 'case_pickle': f['case_pickle'],
                   'first_error': f['first_error'], 'first_case_pickle': f['first_case_pickle'],
                   'shard': [r['shard'], r['n'], r['seed']]}, fh, indent=1)
    return path


def replay(pid, path):
    with open(path) as fh:
        d = json.load(fh)
    p = [q for q in load(pid).PROPS if q.name == d['test']][0]
    for key in ('case_pickle', 'first_case_pickle'):
        case = pickle.loads(base64.b64decode(d[key]))
        print('case:', short(case, 4000))
        rec = Rec()
        rec.begin(case)
        try:
            p.fn(case, rec)
            print('this case alone passes')
        except Exception as e:
            traceback.print_exc(file=sys.stdout)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
    shard, n, seed = d['shard']
    r = run_shard((pid, d['index'], shard, n, seed))
    if r['failure']:
        print('fails when the whole shard is repeated (state kept between cases):')
        print(r['failure']['error'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('not reproduced')
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.append(line.split(' ', 2)[2])
    return out


def _worker(conn, job):
    try:
        conn.send(run_shard(job))
    finally:
        conn.close()


def run_jobs(jobs, procs, deadline):
    """Run shards in forked processes, at most `procs` at a time; yields results, or a string when
    a process died or the time ran out. Remaining processes are ended when the caller stops."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo, live = list(jobs), {}
    try:
        while todo or live:
            while todo and len(live) < procs:
                a, b = ctx.Pipe(duplex=False)
                job = todo.pop(0)
                p = ctx.Process(target=_worker, args=(b, job))
                p.start()
                b.close()
                live[a] = (p, job)
            ready = wait(list(live), timeout=max(0.1, deadline - time.time()))
            if not ready:
                yield 'time limit reached (inconclusive)'
                return
            for a in ready:
                p, job = live.pop(a)
                try:
                    r = a.recv()
                except EOFError:
                    p.join()
                    r = 'process of shard %r ended with %r' % (job[:4], p.exitcode)
                a.close()
                p.join()
                yield r
    finally:
        for p, _ in live.values():
            p.kill()
            p.join()


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang('no answer within %d s' % CASE_LIMIT)


CASE_LIMIT = 150


def warm_up(mod):
    """Fill caches that every forked shard would otherwise fill again: draws a few cases, without
    running any of the code under test on them."""
    import hypothesis
    from hypothesis import HealthCheck, Phase
    from hypothesis.internal import charmap
    from pbt import curves, mine
    charmap.charmap()
    mine.ints_between(0, 1)
    for name in curves.CURVES:
        for d in range(1, 61):
            curves.point(name, d)
    for p in mod.PROPS:
        test = hypothesis.given(p.strategy() if callable(p.strategy) else p.strategy)(lambda c: None)
        test = hypothesis.settings(max_examples=25, database=None, deadline=None,
                                   phases=(Phase.generate, ),
                                   suppress_health_check=list(HealthCheck))(test)
        hypothesis.seed(0)(test)()


def run_check(pid, tier, seed, scale=1.0, procs=None, only=None):
    t0 = time.time()
    mod = load(pid)
    warm_up(mod)
    jobs = []
    for i, p in enumerate(mod.PROPS):
        if only and p.name != only:
            continue
        total = max(1, int((p.quick if tier == 'quick' else p.thorough) * scale))
        shards = max(1, min(p.shards, total // 20 or 1))
        if tier == 'thorough':
            shards = max(shards, min(64, total // 2000))
        for sh in range(shards):
            n = total // shards + (1 if sh < total % shards else 0)
            jobs.append((pid, i, sh, n, seed))
    results = []
    bad = None
    harness = None
    limit = 780 if tier == 'quick' else 6 * 3600
    for r in run_jobs(jobs, procs or min(8, os.cpu_count() or 1), t0 + limit):
        if isinstance(r, str):
            harness = r
            break
        results.append(r)
        if r['failure']:
            bad = r
            break
        if r['harness']:
            harness = r['harness']
            break
    write_evidence(pid, tier, seed, mod, results, bad, time.time() - t0)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if bad:
        path = write_replay(pid, bad)
        print('%s/%s failed: %s' % (pid, bad['test'], bad['failure']['error']))
        print('minimal case: %s' % bad['failure']['case'][:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if harness:
        print('harness error in %s:\n%s' % (pid, harness), file=sys.stderr)
        return 2
    ev = sum(r['evaluations'] for r in results)
    print('%s held on %d cases (%s tier, seed %d, %.1f s)' % (pid, ev, tier, seed,
                                                            time.time() - t0))
    return 0


def write_evidence(pid, tier, seed, mod, results, bad, wall):
    per, keys, samples = collections.OrderedDict(), set(), []
    for p in mod.PROPS:
        rs = [r for r in results if r['test'] == p.name]
        if not rs:
            continue
        labels = collections.Counter()
        tk = set()
        for r in sorted(rs, key=lambda r: r['shard']):
            labels.update(r['labels'])
            tk |= {(p.name, k) for k in r['keys']}
        keys |= tk
        for r in sorted(rs, key=lambda r: r['shard'])[:1]:
            samples += ['%s: %s' % (p.name, s) for s in r['samples'][:2]]
        per[p.name] = {'evaluations': sum(r['evaluations'] for r in rs),
                       'distinct_nontrivial': len(tk),
                       'cpu_s': round(sum(r['wall'] for r in rs), 2),
                       'classes': dict(labels.most_common(60))}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for r in results),
                       'distinct_nontrivial': len(keys),
                       'rule': ' '.join((mod.RULE or '').split()),
                       'samples': samples or ['(failed before the first non-trivial case)'],
                       'tests': per},
          'assumptions': list(getattr(mod, 'ASSUMES', [])),
          'wall_s': round(wall, 2), 'violations': 1 if bad else 0}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--procs', type=int, default=0)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.property, a.replay)
    return run_check(a.property, a.tier, a.seed, a.scale, a.procs, a.only)
