import random
from .common import *
COUNTS = {'quick': 90, 'thorough': 2500}
RULE = ('A case is a history of phases. In each phase one to three simulated processes (or threads of one process) construct trajectory data sets of four classes with different arguments on a shared simulated disk, with and without regeneration, under a seeded interleaving of their file operations and code lines, and faults strike: a process is killed, the machine loses power '
        '(unsynced file contents become empty, torn, holed or garbage, and a suffix of unsynced directory operations is undone), writes are torn, short or fail for a full disk, operations fail with EIO, EMFILE or EACCES, and interrupts and allocation failures hit code lines. Afterwards a clean process constructs every data set twice. '
        'Every data set that is returned is judged: shape, time points, items, rows distinct, each row a solution of its own system (integrated independently with high accuracy), and its contents as a read of the cache in the recorded history. Constructions fail only when a fault struck the very same construction. '
        'Non-trivial: a construction after, or overlapping, a fault or another construction with the same arguments; counted once per distinct (history of operations with fault positions).')
MEASURE = 'distinct (operation kinds, arguments, fault kinds with the file operation or line they struck, interleaving) of runs'
ASSUMPTIONS = ['a trajectory has at least as many time points as a chunk (other arguments are rejected by an error)', 'processes that generate the same data set at the same time may each keep what they generated', 'after power loss either the old or the new file contents may be in effect, or none',
               'classes are identified by their module and qualified name']
REAL = ['experiments/trainer/hamiltonian_dynamics.py and emlp/ loaded from /repo', 'jax, numpy, torch serialisation, files in a scratch directory']
STUBS = ['process and thread scheduling, locks and clock (simulated)', 'disk durability and disk errors (an interposer on open, os and torch file operations)', 'random numbers of processes (seeded per construction)', 'process restart (fresh import in the same interpreter)', 'oil (the installed package, real)']
TIMEOUT = 300
ARGS = [(1, 2, .25, 1.0), (2, 2, .25, 1.0), (3, 5, .2, 2), (3, 5, .2, 4), (4, 2, .2, 2), (5, 4, .125, 1), (101, 2, .25, 1.0), (100, 2, .25, 1.0), (3, 3, .1, 1.5), (2, 2, .251, 1.004), (2, 1, .5, 2), (6, 5, .2, 3), (2, 3, .2, 3), (2, 3, .1, 3), (2, 10, .1, 3), (2, 3, .25, 2), (3, 4, .25, 2.5), (2, 5, .2, 2.4)]
PAIRS = [[(2, 2, .25, 1.0), (2, 2, .2504, 1.0)], [(2, 2, .25, 1.0), (2, 2, .25, .96)], [(3, 5, .2, 2), (3, 5, .2, 1.9)], [(2, 2, .1, 3.0), (2, 2, .1, 3.4)], [(2, 2, .25, 1.0), (2, 2, .25, 1.5)], [(2, 2, .25, 1.0), (2, 1, .25, 1.0)], [(2, 2, .25, 1.0), (4, 2, .25, 1.0)], [(2, 2, .1, 1.2), (21, 2, .1, 1.2)], [(1, 12, .1, 1.2), (11, 2, .1, 1.2)]] # easy to confuse
CLASSES = ['SHO', 'DoubleSpringPendulum', 'userA.Spring', 'userB.Spring', 'userA.SHO']
KINDS = ['kill', 'power', 'torn-kill', 'torn-power', 'enospc', 'eio', 'emfile', 'eacces', 'interrupt', 'short']
def generate(rng, i, tier):
    keys = []
    for _ in range(rng.randint(1, 3)):
        c = rng.choice(CLASSES); a = rng.choice(ARGS)
        if c == 'DoubleSpringPendulum' and a[0] > 6: a = ARGS[2]
        keys.append([c, list(a)])
        if rng.random() < .4: keys.append([c if rng.random() < .5 else rng.choice([x for x in CLASSES if x[0] != 'D']), list(rng.choice(ARGS) if rng.random() < .4 else a)])
    if rng.random() < .4:
        c = rng.choice([x for x in CLASSES if x[0] != 'D']); keys = [[c, list(a)] for a in rng.choice(PAIRS)] + keys[:1]
    phases = []
    for p in range(rng.randint(1, 3)):
        n = rng.choice([1, 1, 2, 2, 3]); focus = rng.randrange(len(keys)); cl = []
        for t in range(n):
            ops = [['make', focus if rng.random() < .75 else rng.randrange(len(keys)), rng.random() < .2, rng.randrange(1 << 30), rng.choice(['kw', 'pos', 'mixed'])] for _ in range(rng.randint(1, 3 if n == 1 else 2))]
            cl.append(dict(proc=t if rng.random() < .75 else 0, ops=ops))
        phases.append(dict(clients=cl, power=rng.randrange(1 << 30)))
    return dict(keys=keys, phases=phases, plan=dict(k=4 if tier == 'quick' else 16, seed=rng.randrange(1 << 30)))

def prepare():
    import core, os, collections, collections.abc
    if not hasattr(collections, 'Iterable'): collections.Iterable = collections.abc.Iterable # (for the installed version of oil)
    core._Finder.roots['trainer'] = os.path.join(core.REPO, 'experiments')
    core.start_process(extra=('trainer.hamiltonian_dynamics',))
def execute(scn):
    import numpy as np, sys, os, core, disk, history, tempfile, shutil, random as rnd, collections, types
    from scipy.integrate import solve_ivp
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), faults={}, stats=dict(runs=0, constructions=0, generated=0, from_cache=0, failed_by_fault=0, killed=0, power_losses=0, files_damaged=0, metadata_lost=0, file_operations=0, switches=0), simtime=0.)
    NAMES = ('randn', 'randint', 'rand', 'normal', 'standard_normal', 'uniform', 'permutation', 'choice', 'random_sample', 'random', 'shuffle')
    real = {k: getattr(np.random, k) for k in NAMES}
    # reference equations of motion
    def f_spring(k, q=0.):
        def f(t, z): x, p = z[:len(z) // 2], z[len(z) // 2:]; return np.concatenate([p, -k * x - q * x ** 3])
        return f
    def f_pend(t, z):
        x1, x2, p = z[:3], z[3:6], z[6:]; r1 = np.linalg.norm(x1); d = x1 - x2; r = np.linalg.norm(d)
        F1 = -(r1 - 1) * x1 / r1 - 2 * (r - 1) * d / r; F2 = 2 * (r - 1) * d / r
        F1[2] -= 1; F2[2] -= 1
        return np.concatenate([p, F1, F2])
    EQ = {'SHO': (f_spring(1.), 2), 'DoubleSpringPendulum': (f_pend, 12), 'userA.Spring': (f_spring(2.), 4), 'userB.Spring': (f_spring(3., .5), 4), 'userA.SHO': (f_spring(.5), 2)}
    checked = {}
    def valid_data(cls, a, Z):
        """None, or what is wrong with the chunks"""
        n, L, dt, it = a; f, dim = EQ[cls]
        if Z.shape != (n, L, dim): return f'chunks have shape {Z.shape}'
        if not np.isfinite(Z).all(): return 'chunks are not finite'
        if len({z.tobytes() for z in Z}) < n: return 'the same chunk appears twice'
        h = (cls, tuple(a), sha(Z.tobytes().hex()))
        if h in checked: return checked[h]
        idx = range(n) if n <= 6 else np.random.default_rng(0).choice(n, 6, replace=False)
        why = None
        for j in idx:
            s = solve_ivp(f, (0, dt * (L - 1) + 1e-9), Z[j, 0].astype(float), method='DOP853', t_eval=dt * np.arange(L), rtol=1e-9, atol=1e-10)
            e = np.abs(s.y.T - Z[j]).max(); sc = max(1, np.abs(Z[j]).max())
            s2 = solve_ivp(f, (0, dt * (L - 1) + 1e-9), Z[j, 0] * (1 + 1e-4 * np.random.default_rng(j).standard_normal(dim)), method='DOP853', t_eval=dt * np.arange(L), rtol=1e-9, atol=1e-10)
            tol = 1e-2 * sc + 30 * np.abs(s2.y - s.y).max() # (some start near a singularity)
            out['stats']['max_error_over_tolerance'] = max(out['stats'].get('max_error_over_tolerance', 0), round(e / tol, 4))
            if e > tol: why = f'chunk {j} is not a solution (error {e:.3g})'; break
        checked[h] = why
        return why

    def run(s, profile=False):
        root = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH')); home = os.environ.get('HOME'); os.environ['HOME'] = root
        D = disk.Disk(root); D.install(); viol = []; log = []; D.nonce = 0; prof = []
        time = [0]; hist = collections.defaultdict(list) # key -> operations
        cur = {}; pending = []
        def route(name):
            def fn(*a, **k):
                sc = D.sched; c = sc.me() if sc is not None else None; r = cur.get(c.tid) if c is not None else None
                if r is None: return real[name](*a, **k)
                r['drew'] = True
                return getattr(r['rng'], name)(*a, **k)
            return fn
        for k in NAMES: setattr(np.random, k, route(k))
        def process(sd):
            core.start_process(salt=sd, npseed=sd, extra=('trainer.hamiltonian_dynamics',))
            M = sys.modules['trainer.hamiltonian_dynamics']; H = M.HamiltonianDataset
            def user(mod, name, dim, k, q):
                return type(name, (H,), dict(__module__=mod, __qualname__=name, H=lambda self, z: (z[..., dim // 2:] ** 2).sum() / 2 + k * (z[..., :dim // 2] ** 2).sum() / 2 + q * (z[..., :dim // 2] ** 4).sum() / 4,
                            sample_initial_conditions=lambda self, bs: np.random.randn(bs, dim)))
            return {'SHO': M.SHO, 'DoubleSpringPendulum': M.DoubleSpringPendulum, 'userA.Spring': user('userA', 'Spring', 4, 2., 0.), 'userB.Spring': user('userB', 'Spring', 4, 3., .5), 'userA.SHO': user('userA', 'SHO', 2, .5, 0.)}
        def judge(o, ds, cls, a):
            n, L, dt, it = a
            Z = np.asarray(ds.Zs); T = np.asarray(ds.T); TL = np.asarray(ds.T_long); out['evals'] += 1
            why = valid_data(cls, a, Z)
            if why: return f'{why}'
            if T.shape != (L,) or np.abs(T - dt * np.arange(L)).max() > 1e-5 * max(1, dt * L): return f'the time points of a chunk are {T.tolist()}'
            m = int(np.ceil(it / dt - 1e-6))
            if TL.shape != (m,) or np.abs(TL - dt * np.arange(m)).max() > 1e-4 * max(1, it): return f'the long time points are {TL.shape} from {TL[0]} to {TL[-1]}'
            if len(ds) != n: return f'the length is {len(ds)}'
            for j in (0, n - 1):
                (z0, t), z = ds[j]
                if not (np.array_equal(np.asarray(z0), Z[j, 0]) and np.array_equal(np.asarray(t), T) and np.array_equal(np.asarray(z), Z[j])): return f'item {j} is not chunk {j}'
            o['value'] = Z.tobytes()
            return None
        def consistent(o, ops):
            """is the value of a construction without regeneration what the cache may have held?"""
            done = [q for q in ops if q is not o and q.get('value') is not None and q['start'] < o['end']]
            maybe = [q for q in ops if q is not o and q.get('unknown') and q['start'] < o['end']]
            def superseded(v):
                w = [q for q in ops if q.get('value') == v and q['start'] < o['end'] and not q['from_cache']] or maybe # (the data of a construction that did not end)
                if not w: return False
                e = max(q['end'] for q in w)
                cut = max([q['end'] for q in ops if q.get('power')], default=-1) # what was in effect before the power failed may be in effect again
                return any(r is not o and r.get('value') not in (None, v) and not r['faulted'] and r['start'] > max(e, cut) and r['end'] < o['start'] for r in ops)
            if o['from_cache']:
                if any(q['value'] == o['value'] for q in done): return None if not superseded(o['value']) else 'it returned data that was replaced earlier'
                if maybe: return None
                return 'it returned data that no construction with these arguments made'
            before = [q for q in done if q['end'] < o['start']]
            if before and not maybe: return 'it generated other data although a construction with these arguments had finished'
            if before:
                # an operation that was cut short may have removed the file; but a clean construction finished after all of those keeps it
                last = max(q['end'] if q['end'] is not None else q['start'] for q in maybe)
                if any(q['start'] > last and not q['faulted'] for q in before): return 'it generated other data although a construction with these arguments had finished'
            return None
        def client(ph, t, mods, sched):
            ops = ph['clients'][t]['ops']
            def body(c):
                for i, op in enumerate(ops):
                    if viol: return
                    cls, a = s['keys'][op[1]]; n, L, dt, it = a; time[0] += 1
                    o = dict(start=time[0], end=None, faulted=False, from_cache=True, key=op[1], who=f'phase {s["phases"].index(ph)} process {t}' if ph in s['phases'] else f'clean process', regen=op[2]); k = (cls, tuple(a)); hist[k].append(o)
                    fired = len([f for f in sched.fired if f[0] == t]); r = cur[t] = dict(rng=np.random.RandomState(op[3] % 2**32), drew=False)
                    msg = f'{o["who"]} op {i}: {cls}{tuple(a)}' + (' with regen' if op[2] else '')
                    def over():
                        time[0] += 1; o['end'] = time[0]; o['from_cache'] = not r['drew']; o['faulted'] = len([f for f in sched.fired if f[0] == t]) > fired
                    try:
                        C = mods[cls]
                        if op[4] == 'kw': ds = C(n_systems=n, chunk_len=L, dt=dt, integration_time=it, regen=op[2])
                        elif op[4] == 'pos': ds = C(n, L, dt, it, op[2])
                        else: ds = C(n, L, regen=op[2], integration_time=it, dt=dt)
                    except core.Abort: raise
                    except disk.Killed:
                        over(); o['unknown'] = True; out['stats']['killed'] += 1; log.append([t, 'killed']); return
                    except BaseException as e:
                        over(); o['unknown'] = True
                        if o['faulted'] or D.down: out['stats']['failed_by_fault'] += 1; log.append([t, 'failed', type(e).__name__]); continue
                        viol.append(dict(kind='error', msg=f'{msg} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}')); return
                    finally: cur.pop(t, None)
                    over(); out['stats']['constructions'] += 1; out['stats']['from_cache' if o['from_cache'] else 'generated'] += 1
                    if o['faulted']: o['unknown'] = True # it may not have reached the disk, or something else
                    c.quiet += 1
                    try: why = judge(o, ds, cls, a)
                    finally: c.quiet -= 1
                    if why is None and op[2] and o['from_cache'] and not o['faulted']: why = 'it did not regenerate'
                    if why is None and not op[2] and not o['faulted']: pending.append((o, k, msg)) # judged when the operations that overlap it have ended
                    log.append([t, op[1], op[2], o['from_cache'], o['faulted']])
                    if why: viol.append(dict(kind='data', msg=f'{msg}: {why}')); return
            return body
        try:
            last = dict(clients=[dict(proc=0, ops=[['make', k, False, 77 + k, 'kw'] for k in range(len(s['keys'])) for _ in (0, 1)])])
            pid = 4000
            for ph in s['phases'] + [last]:
                procs = {}; mods = []
                for cl in ph['clients']:
                    if cl['proc'] not in procs: pid += 1; procs[cl['proc']] = (process(pid * 31 + 7), pid)
                    mods.append(procs[cl['proc']])
                D.pids = [m[1] for m in mods]; D.nonce += 1
                sched = core.Sched(ph.get('preempt', ()), ph.get('faults', ()), ph.get('seamfaults', ()), profile=profile); sched.disk = D; D.sched = sched
                try: cs = sched.run([client(ph, t, mods[t][0], sched) for t in range(len(ph['clients']))])
                finally: D.sched = None
                for c in cs:
                    if c.exc is not None: raise c.exc
                out['stats']['switches'] += len(sched.switches); out['simtime'] += sched.now - 1e9
                for f in sched.fired: out['faults'][f[2]] = out['faults'].get(f[2], 0) + 1
                log.append([[f[0], f[2], f[3], f[4]] for f in sched.fired] + [len(sched.switches)])
                prof.append((sched.lines, [list(getattr(c, 'fslog', ())) for c in cs]))
                if sched.dead and not viol: viol.append(dict(kind='blocked', msg=sched.dead))
                for o, k, msg in pending:
                    why = None if viol else consistent(o, hist[k])
                    if why: viol.append(dict(kind='data', msg=f'{msg}: {why}'))
                pending.clear()
                if viol: break
                if D.down:
                    lost = D.power_loss(rnd.Random(ph.get('power', 0))); out['stats']['power_losses'] += 1; out['stats']['files_damaged'] += lost['damaged']; out['stats']['metadata_lost'] += lost['metadata']
                    time[0] += 1
                    for k in s['keys']: hist[(k[0], tuple(k[1]))].append(dict(start=time[0], end=time[0], faulted=True, from_cache=False, unknown=True, power=True))
            out['stats']['runs'] += 1; out['stats']['file_operations'] += D.ops
            if any(isinstance(x, list) and len(x) == 5 for x in log): out['sigs'].add(sha([s['keys'], log]))
            if viol: out['violation'] = viol[0]; out['concrete'] = s
        finally:
            for k in NAMES: setattr(np.random, k, real[k])
            D.uninstall(); os.environ['HOME'] = home if home is not None else '/root'
            shutil.rmtree(root, ignore_errors=True); core.kill_process()
        return prof
    if plan is None: run(scn)
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}; rng = rnd.Random(plan['seed'])
        prof = run(base, True)
        for j in range(plan['k']):
            if out['violation']: break
            s = dict(base); s['phases'] = [dict(p) for p in base['phases']]; hit = False
            for p, (lines, fs) in zip(s['phases'], prof):
                n = len(p['clients'])
                if n > 1:
                    pre = {}; dev = [x for x in lines if x[2] == 'device']
                    for _ in range(rng.choice([1, 2, 4, 10, 40])):
                        src = dev if dev and rng.random() < .8 else lines
                        for t, st in ([rng.choice(src)[:2]] if src is dev else pick_points(rng, src, 1)): pre[(t, st)] = rng.choice([u for u in range(n) if u != t])
                    p['preempt'] = [[a, b, c] for (a, b), c in sorted(pre.items())]
                sf = {}
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    ts = [t for t in range(n) if fs[t]]
                    if not ts: break
                    t = rng.choice(ts); by = {}
                    for x, w in enumerate(fs[t]): by.setdefault(w[0], []).append(x + 1)
                    w = rng.choice(sorted(by)); m = rng.choice(by[w])
                    kinds = [k for k in KINDS if (k[:4] != 'torn' and k != 'short') or w == 'write']
                    k = rng.choice(kinds); sf[(t, m)] = k
                    if k == 'enospc' and rng.random() < .5: # the disk stays full for a while
                        for x in range(m, m + rng.randint(2, 30)): sf[(t, x)] = k
                p['seamfaults'] = [[t, 'fs', m, k] for (t, m), k in sorted(sf.items())]
                if rng.random() < .25 and lines: p['faults'] = [[t, st, rng.choice(['interrupt', 'memory', 'runtime', 'kill', 'power'])] for t, st in pick_points(rng, [x for x in lines if x[2] != 'device'] or lines, 1)]
            run(s)
        out['sample'] = dict(keys=scn['keys'], phases=[[[o[1:3] for o in c['ops']] for c in p['clients']] for p in scn['phases']])
    out['sigs'] = sorted(out['sigs'])
    return out
def axes(scn): return [('phases',)] + [('phases', p, 'clients', t, 'ops') for p in range(len(scn['phases'])) for t in range(len(scn['phases'][p]['clients']))] + \
    [('phases', p, k) for p in range(len(scn['phases'])) for k in ('preempt', 'faults', 'seamfaults') if scn['phases'][p].get(k)]
def valid(scn): return all(o[1] < len(scn['keys']) for p in scn['phases'] for c in p['clients'] for o in c['ops'])
