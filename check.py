#!/usr/bin/env python3
"""check.py ID [--replay FILE]: explores simulated runs for a property and reports violations.

Exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import os, sys, json, time, random, subprocess, threading, queue, hashlib, collections, copy, argparse, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
NWORK = int(os.environ.get('VERIF_WORKERS', '8'))
HASHSEEDS = ['1', '20', '333', '4444']   # classes of string hash seeds of the interpreters; scenario i runs in class i mod 4

def worker_env(hs):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1', TQDM_DISABLE='1', TF_CPP_MIN_LOG_LEVEL='3', PYTHONHASHSEED=hs, PYTHONWARNINGS='ignore')
    for k in ('EMLP_SIM_SVD_LIMIT', 'EMLP_SIM_KRYLOV_LIMIT', 'PYTHONPATH'): e.pop(k, None)
    return e

class Worker:
    def __init__(self, prop, hs, cwd):
        self.prop, self.hs, self.cwd, self.done = prop, hs, cwd, []
        self.p = None; self.errlog = os.path.join(cwd, f'err{id(self)}.txt')
    def start(self):
        self.err = open(self.errlog, 'ab')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'sim', 'worker.py'), self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=dict(worker_env(self.hs), VERIF_SCRATCH=self.cwd), cwd=self.cwd, text=True, start_new_session=True)
        self.q = queue.Queue(); self.done = []
        def pump(f, q):
            for l in f: q.put(l)
            q.put(None)
        threading.Thread(target=pump, args=(self.p.stdout, self.q), daemon=True).start()
        l = self.get(240)
        if l is None or not l.get('ready'): raise RuntimeError('worker did not start:\n' + self.tail())
        return self
    def tail(self):
        try: return open(self.errlog, errors='replace').read()[-3000:]
        except OSError: return ''
    def get(self, timeout):
        try: l = self.q.get(timeout=timeout)
        except queue.Empty: return None
        return None if l is None else json.loads(l)
    def generate(self, key, i, tier):
        return self.run(None, 240, gen=[key, i, tier])
    def run(self, scn, timeout, gen=None):
        if self.p is None or self.p.poll() is not None: self.start()
        self.p.stdin.write(json.dumps({'id': 0, 'gen': gen} if gen else {'id': 0, 'scn': scn}) + '\n'); self.p.stdin.flush()
        r = self.get(timeout)
        if r is None:
            alive = self.p.poll() is None
            self.stop()
            return {'hang': True} if alive else {'harness_error': 'worker died: ' + self.tail()}
        if not gen: self.done.append(scn)
        new = sorted(set(r.get('known', ())) - LISTED) # defects that are not recorded in known_findings.json
        if new and not r.get('violation'): r['violation'] = {'kind': 'finding', 'msg': ', '.join(new)}
        return r
    def stop(self):
        if self.p is not None:
            try: os.killpg(self.p.pid, 9)
            except (ProcessLookupError, PermissionError): pass
            self.p.wait(); self.p = None

def load(prop):
    sys.path.insert(0, os.path.join(HERE, 'sim'))
    import importlib
    return importlib.import_module('props.' + prop.lower())

def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop] if os.path.exists(p) else []

LISTED = set()
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = load(prop)
        LISTED.update(k['id'] for k in known_findings(prop))
        base = os.environ.get('VERIF_TMP', '/tmp')
        self.cwd = os.path.join(base, f'verif-{prop}-{os.getpid()}'); os.makedirs(self.cwd, exist_ok=True)
        self.t0 = time.time()
        self.timeout = getattr(self.mod, 'TIMEOUT', 180)

    def close(self):
        import shutil
        shutil.rmtree(self.cwd, ignore_errors=True)

    def explore(self):
        m, tier = self.mod, self.tier
        n = int(os.environ.get('VERIF_COUNT', m.COUNTS[tier])); soft = float(os.environ.get('VERIF_SOFT', {'quick': getattr(m, 'SOFT', 240), 'thorough': getattr(m, 'SOFT_THOROUGH', 3000)}[tier]))
        classes = [collections.deque(range(k, n, 4)) for k in range(4)]
        lock = threading.Lock(); stop = threading.Event()
        self.listed = LISTED; self.seen = set()
        self.results = {}; self.bad = []; self.errors = []; self.unreproduced = []
        def serve(w, k):
            try: w.start()
            except RuntimeError as e:
                with lock: self.errors.append(str(e))
                return
            while not stop.is_set():
                with lock:
                    if not classes[k] or time.time() - self.t0 > soft: break
                    i = classes[k].popleft()
                try:
                    scn = w.generate(f'{self.prop}/{self.seed}/{i}', i, tier)
                    if 'scn' not in scn: r = {'harness_error': 'generating: ' + str(scn)}
                    else:
                        scn = scn['scn']; r = w.run(scn, self.timeout)
                        if r.get('hang'): r = w.run(scn, 2 * self.timeout) # a second chance on a fresh worker
                except Exception as e: r = {'harness_error': repr(e)}
                with lock:
                    if r.get('harness_error'): self.errors.append(f'scenario {i}: ' + r['harness_error'])
                    elif r.get('hang'):
                        r = {'violation': {'kind': 'hang', 'msg': f'no answer within {2 * self.timeout} s of real time'}, 'evals': 1}
                    for f in r.get('known', ()): # a defect that is recorded in known_findings.json
                        if f in self.listed: self.seen.add(f)
                    if r.get('violation'):
                        self.bad.append((i, r.get('concrete', scn), r['violation'], w.hs, list(w.done[:-1])))
                        if len(self.bad) >= getattr(m, 'MAXBAD', 1): stop.set()
                    self.results[i] = r
                    if len(self.errors) >= 3: stop.set()
            w.stop()
        ws = [Worker(self.prop, HASHSEEDS[k % 4], self.cwd) for k in range(NWORK)]
        def guarded(w, k):
            try: serve(w, k)
            except BaseException as e:
                with lock: self.errors.append('driver: ' + repr(e))
        ts = [threading.Thread(target=guarded, args=(w, k % 4)) for k, w in enumerate(ws)]
        for t in ts: t.start()
        for t in ts: t.join()
        for w in ws: w.stop()
        self.planned = n

    # ---- turning a violation into a replay file
    def fresh(self, scn, hs, prefix=()):
        w = Worker(self.prop, hs, self.cwd)
        try:
            w.start()
            for p in prefix: w.run(p, self.timeout)
            return w.run(scn, self.timeout)
        finally: w.stop()

    def minimise(self, scn, hs, budget):
        m = self.mod; end = time.time() + budget
        pool = [Worker(self.prop, hs, self.cwd) for _ in range(NWORK)]
        ts = [threading.Thread(target=lambda w=w: w.start()) for w in pool]
        for t in ts: t.start()
        for t in ts: t.join()
        def batch(cands):
            """first candidate that still violates"""
            res = [None] * len(cands)
            def go(j):
                try: res[j] = pool[j].run(cands[j], self.timeout)
                except Exception as e: res[j] = {'harness_error': str(e)}
            th = [threading.Thread(target=go, args=(j,)) for j in range(len(cands))]
            for t in th: t.start()
            for t in th: t.join()
            for c, r in zip(cands, res):
                if r and not r.get('harness_error') and r.get('violation'): return r.get('concrete', c), r['violation']
            return None
        best = None
        def tryall(cands):
            nonlocal scn, best
            cands = [c for c in cands if getattr(m, 'valid', lambda s: True)(c)]
            for j in range(0, len(cands), NWORK):
                if time.time() > end: return False
                r = batch(cands[j:j + NWORK])
                if r: scn, best = r; return True
            return False
        progress = True
        while progress and time.time() < end:
            progress = False
            for path in m.axes(scn):
                L = get(scn, path)
                if L is None: continue
                size = max(1, len(L) // 2)
                while len(L) and time.time() < end:
                    cands = []
                    for a in range(0, len(L), size):
                        c = copy.deepcopy(scn); put(c, path, L[:a] + L[a + size:]); cands.append(c)
                    if tryall(cands):
                        progress = True; L = get(scn, path); size = min(size, max(1, len(L)))
                        if L is None: break
                    elif size == 1: break
                    else: size = max(1, size // 2)
            if time.time() < end and tryall(list(getattr(m, 'simplify', lambda s: [])(scn))): progress = True
        for w in pool: w.stop()
        return scn

    def report(self):
        """-> True if a violation was confirmed by replaying it"""
        for i, scn, v, hs, prefix in self.bad:
            if v['kind'] == 'hang':
                r = self.fresh(scn, hs)
                if not r.get('hang'): self.unreproduced.append((i, v)); continue
                self.write(scn, hs, [], v, i); return True
            r = self.fresh(scn, hs)
            if r.get('violation'):
                small = self.minimise(scn, hs, getattr(self.mod, 'SHRINK', 100))
                r2 = self.fresh(small, hs)
                if r2.get('violation'): self.write(small, hs, [], r2['violation'], i)
                else: self.write(scn, hs, [], r['violation'], i)
                return True
            ok = False
            for pre in (prefix[-1:], prefix[-4:], prefix):
                r = self.fresh(scn, hs, pre)
                if r.get('violation'): ok = True; break
            if ok: self.write(scn, hs, pre, r['violation'], i); return True
            self.unreproduced.append((i, v))
        return False

    def write(self, scn, hs, prefix, v, i):
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        h = hashlib.sha1(json.dumps([scn, hs]).encode()).hexdigest()[:10]
        p = os.path.join(HERE, 'replays', f'{self.prop}-{h}.json')
        json.dump({'property': self.prop, 'seed': self.seed, 'scenario_index': i, 'hashseed': hs, 'prefix': prefix, 'scenario': scn, 'violation': v}, open(p, 'w'), indent=1)
        self.replay = p; self.violation = v
        print(f'{v["kind"]}: {v["msg"]}')
        print(f'VIOLATION property={self.prop} replay={p}', flush=True)

    def evidence(self, violations):
        m = self.mod; rs = self.results
        sigs = set(); stats = collections.Counter(); faults = collections.Counter(); evals = 0; simt = 0.; samples = []
        for i in sorted(rs):
            r = rs[i]
            evals += r.get('evals', 1); sigs.update(r.get('sigs', ())); simt += r.get('simtime', 0)
            for k, x in (r.get('stats') or {}).items(): stats[k] = max(stats[k], x) if k.startswith('max_') else stats[k] + x
            for k, x in (r.get('faults') or {}).items(): faults[k] += x
            if r.get('sample') and len(samples) < 6: samples.append({'scenario': i, 'case': r['sample']})
        wall = time.time() - self.t0
        runs = stats.pop('runs', 0) or evals
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': m.LEVEL,
              'coverage': {'evaluations': evals, 'distinct_nontrivial': len(sigs), 'rule': m.RULE, 'samples': samples,
                           'scenarios': len(rs), 'scenarios_planned': self.planned, 'simulated_runs': runs, 'runs_per_hour': int(runs / max(wall, 1e-3) * 3600),
                           'seeds_per_hour': int(len(rs) / max(wall, 1e-3) * 3600), 'simulated_seconds': round(simt, 3), 'faults_injected': dict(sorted(faults.items())),
                           'counters': dict(sorted(stats.items())), 'distinct_measure': m.MEASURE, 'real_components': m.REAL, 'stubbed_components': m.STUBS,
                           'interpreter_hash_seeds': HASHSEEDS, 'violations_found': violations, 'unreproduced_anomalies': [str(u)[:500] for u in self.unreproduced]},
              'assumptions': m.ASSUMPTIONS, 'violations': len(violations), 'wall_s': round(wall, 2)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)

def get(o, path):
    for k in path:
        if isinstance(o, dict): o = o.get(k)
        elif isinstance(o, list) and k < len(o): o = o[k]
        else: return None
        if o is None: return None
    return o
def put(o, path, v):
    for k in path[:-1]: o = o[k]
    o[path[-1]] = v

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--replay'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    c = Check(a.prop, tier, a.seed)
    try:
        if a.replay:
            d = json.load(open(a.replay))
            r = c.fresh(d['scenario'], d['hashseed'], d.get('prefix', ()))
            v = r.get('violation') or ({'kind': 'hang', 'msg': 'no answer'} if r.get('hang') else None)
            if v:
                print(f'{v["kind"]}: {v["msg"]}'); print(f'VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}')
                print('identical to the recorded violation' if v == d['violation'] else 'differs from the recorded violation'); return 1
            if r.get('harness_error'): print(r['harness_error'], file=sys.stderr); return 2
            print('no violation'); return 0
        c.explore()
        kf = known_findings(a.prop)
        found = c.report() if c.bad else False
        for k in kf:
          if k['id'] in c.seen: print(f'KNOWN-FINDING: property={a.prop} {k["what"]}')
        c.evidence([{'replay': c.replay, **c.violation}] if found else [])
        if found: return 1
        if c.errors:
            for e in c.errors[:3]: print('harness error: ' + e, file=sys.stderr)
            return 2
        if not c.results: print('nothing was executed', file=sys.stderr); return 2
        print(f'property={a.prop} held on {len(c.results)} scenarios ({time.time() - c.t0:.0f} s)' + (f'; {len(c.unreproduced)} anomalies did not reproduce' if c.unreproduced else ''))
        return 0
    finally: c.close()
if __name__ == '__main__': sys.exit(main())
