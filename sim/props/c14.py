import random
from .common import *
COUNTS = {'quick': 70, 'thorough': 2500}
RULE = ('A case is a history of calls to one or two trainers (regression, classification, regression of equivariant networks with shuffled batches, Hamiltonian and ODE dynamics): training in instalments including empty ones, with a learning rate schedule, under a scripted clock (still, slow, fast, jumping back and forth) that decides when metrics are logged, '
        'with interrupts, allocation failures and failing loaders at any executed line or batch, followed by continuing. Each call is compared with a reference training loop that never logs, runs on its own model, optimizer and random states, and goes through all instalments in one go: parameters and optimizer state, learning rate schedule positions, epoch counter. '
        'Every recorded metric is recomputed from the parameters at that time, and the kept checkpoint is compared with the best recorded metric. Non-trivial: a call that performs updates; counted once per distinct (trainer, instalments, clock, faults).')
MEASURE = 'distinct (trainer configuration, history of calls, clock, fault positions) that performed updates'
ASSUMPTIONS = ['two trainers that train at the same time use loaders without shuffling (they share the random generators of the process)', 'an epoch that is interrupted is repeated', 'metrics of loaders whose last batch is smaller are not judged (batches are weighted equally)']
REAL = ['experiments/trainer/ and emlp/ loaded from /repo', 'jax, objax, torch data loaders, oil logger']
STUBS = ['wall clock of logger and trainer (scripted)', 'thread scheduling and locks (simulated)', 'failing loaders and interrupts (scripted)', 'tensorboard (not installed; the writer of oil that does nothing)']
TIMEOUT = 300
KINDS = ['Regressor', 'Classifier', 'RegressorPlus', 'RegressorPlus', 'Dynamics', 'ODE']
CLOCKS = ['still', 'slow', 'fast', 'back', 'jumps']
def generate(rng, i, tier):
    tr = []
    n = rng.choice([1, 1, 1, 2])
    for _ in range(n):
        k = rng.choice(KINDS); bs = rng.choice([2, 3, 4]); nb = rng.choice([1, 1, 2, 3])
        ntr = max(1, bs * nb - (rng.randint(0, bs - 1) if rng.random() < .3 else 0))
        c = dict(kind=k, bs=bs, n=ntr, nt=bs * rng.choice([1, 2]), nv=bs if rng.random() < .4 else 0, shuffle=rng.random() < .6 and n == 1, alias=rng.random() < .4, seed=rng.randrange(1 << 30),
                 lr=rng.choice(['const', 'warm', 'cos', 'step']), period=rng.choice([0, .001, .02, 1]), frac=rng.choice([.01, .1, .75]), stop=rng.random() < .4, hidden=rng.choice([3, 6]))
        tr.append(c)
    clients = []
    for t in range(n):
        ops = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            ops.append(['train', rng.choice([0, 1, 1, 2, 3])] if r < .55 else ['to', rng.choice([0, 1, 2])] if r < .9 else ['less'])
        clients.append(ops + [['to', rng.choice([0, 1])]])
    return dict(trainers=tr, clients=clients, clock=[rng.choice(CLOCKS), rng.randrange(1 << 30)], seed=rng.randrange(1 << 30), proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), plan=dict(k=2 if tier == 'quick' else 8, seed=rng.randrange(1 << 30)))

def prepare():
    import core, os, collections, collections.abc
    if not hasattr(collections, 'Iterable'): collections.Iterable = collections.abc.Iterable # (for the installed version of oil)
    core._Finder.roots['trainer'] = os.path.join(core.REPO, 'experiments')
    core.start_process(extra=('trainer.hamiltonian_dynamics', 'trainer.model_trainer', 'trainer.utils', 'emlp.nn.objax'))
    import oil.logging.lazyLogger as LL
    LL.tb_default_logdir = lambda c='': os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'runs')

class Clock:
    """the wall clock of the simulated machine"""
    def __init__(self, mode, seed): self.mode, self.r, self.t, self.n = mode, random.Random(seed), 1e9, 0
    def time(self):
        self.n += 1; r = self.r
        self.t += {'still': 0, 'slow': 1e-3, 'fast': 400., 'back': -5., 'jumps': r.choice([0, 1e-6, .1, 90., 4000., 1e7, -3600., -1e8])}[self.mode]
        return self.t
    monotonic = perf_counter = time
    def sleep(self, dt): self.t += dt
    def __getattr__(self, k):
        import time
        return getattr(time, k)

def execute(scn):
    import numpy as np, sys, os, core, history, random as rnd, jax, jax.numpy as jnp, objax, torch, tempfile, shutil, scipy.linalg
    from torch.utils.data import DataLoader, Dataset
    import oil.logging.lazyLogger as LL
    from world import Violation
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), faults={}, stats=dict(runs=0, calls=0, updates=0, recorded=0, lazy_logs=0, metrics_checked=0, interrupted_calls=0, continued=0, clock_readings=0, switches=0, scheduling_points=0), simtime=0.)
    class Data(Dataset):
        def __init__(self, xs, ys): self.xs, self.ys = xs, ys; self.fail = None; self.n = 0
        def __len__(self): return len(self.xs)
        def __getitem__(self, i):
            if self.fail is not None:
                self.n += 1
                if self.n == self.fail: self.fail = None; raise OSError('injected: data is not readable')
            return self.xs[i], self.ys[i]
    def rng_state(): return np.random.get_state(), rnd.getstate(), torch.get_rng_state()
    def set_rng(s): np.random.set_state(s[0]); rnd.setstate(s[1]); torch.set_rng_state(s[2])
    def schedule(kind):
        return {'const': lambda e: 1e-2, 'warm': lambda e: 2e-2 * min(1, (e + .1) / 3), 'cos': lambda e: 1e-2 * (1.2 + np.cos(e)), 'step': lambda e: 2e-2 if e < 1 else 5e-3}[kind]

    def build(cfg, env, mods):
        """a trainer, and what the reference needs"""
        MT, HD, TR, CL, UT = mods[:5]; k = cfg['kind']; r = np.random.default_rng(cfg['seed']); f32 = np.float32
        N = {'train': cfg['n'], 'test': cfg['nt'], 'val': cfg['nv']}
        np.random.seed(cfg['seed'] % 2**32); objax.random.DEFAULT_GENERATOR.seed(cfg['seed'] % 2**31)
        h = cfg['hidden']
        class Net(objax.Module):
            def __init__(self, i, o): super().__init__(); self.a, self.b = objax.nn.Linear(i, h), objax.nn.Linear(h, o)
            def __call__(self, x, training=True): return self.b(objax.functional.tanh(self.a(x)))
        if k in ('Regressor', 'Classifier'):
            make = lambda: Net(3, 2)
            data = {n: Data(r.standard_normal((m, 3)).astype(f32), (r.integers(0, 2, m) if k == 'Classifier' else r.standard_normal((m, 2)).astype(f32))) for n, m in N.items()}
            cls = getattr(CL, k)
        elif k == 'RegressorPlus':
            G = mods[5].SO(2) if h == 3 else mods[5].S(3); V = mods[6].V; st = (f32(0), f32(1.5), f32(0), f32(2.))
            make = lambda: mods[7].Standardize(mods[7].EMLP(2 * V, V, group=G, ch=4, num_layers=1), st)
            d = 2 if h == 3 else 3
            data = {n: Data(r.standard_normal((m, 2 * d)).astype(f32), r.standard_normal((m, d)).astype(f32)) for n, m in N.items()}
            cls = MT.RegressorPlus
        else:
            L, dt = 3, .3
            class H(objax.Module): # z' = J A z with A = B B^T, or z' = A z
                def __init__(self): super().__init__(); self.w = objax.TrainVar(jnp.asarray(np.random.randn(2, 2).astype(f32) * .4 + np.eye(2, dtype=f32)))
                def __call__(self, z, *a, **kw):
                    return ((z @ self.w.value) ** 2).sum() / 2 if k == 'Dynamics' else z @ self.w.value
            make = H
            class D2(Data):
                T = np.asarray(dt * np.arange(L), f32); T_long = np.asarray(dt * np.arange(6), f32)
                def H(self, z): return (z ** 2).sum() / 2
                def __getitem__(self, i):
                    x, y = super().__getitem__(i); return (x, self.T), y
            R = lambda t: np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
            data = {}
            for n, m in N.items():
                z0 = r.standard_normal((m, 2)); data[n] = D2(z0.astype(f32), np.stack([z0 @ R(t).T for t in D2.T], 1).astype(f32) if m else np.zeros((0, L, 2), f32))
            cls = HD.IntegratedDynamicsTrainer if k == 'Dynamics' else HD.IntegratedODETrainer
        model = make(); np.random.seed(1); ref = make()
        loader = lambda n, own: UT.LoaderTo(DataLoader(data[n], batch_size=min(cfg['bs'], max(1, len(data[n]))), shuffle=n == 'train' and cfg['shuffle'], num_workers=0))
        loaders = {n: loader(n, 0) for n in data if len(data[n])}
        if cfg['alias']: loaders['Train'] = loaders['train']
        mv = model.vars(); lrs = []; sched = schedule(cfg['lr'])
        def lr(e): lrs.append(float(e)); return sched(e)
        if k in ('Regressor', 'Classifier'):
            pj = objax.Jit(lambda x: model(x, training=False), mv); model.predict = lambda x: pj(x)
        stop = {'Classifier': 'test_Acc'}.get(k, 'test_MSE') if cfg['stop'] else None
        tr = cls(model, loaders, objax.optimizer.Adam, lr, log_dir=None, log_args=dict(minPeriod=cfg['period'], timeFrac=cfg['frac'], no_print=True), early_stop_metric=stop)
        # the reference
        def flow(w, z0, ts):
            w = np.asarray(w, float)
            if k == 'Dynamics': A = w @ w.T; M = np.array([[0, 1], [-1, 0]]) @ A
            else: M = w.T
            return np.stack([z0 @ scipy.linalg.expm(M * float(t)).T for t in ts], 1)
        def loss(m):
            if k == 'Classifier':
                def f(x, y): lp = jax.nn.log_softmax(m(x)); return -jnp.mean(lp[jnp.arange(len(y)), y])
            elif k == 'Regressor': f = lambda x, y: jnp.mean((m(x) - y) ** 2)
            elif k == 'RegressorPlus': f = lambda x, y: jnp.mean((m(x, True) - y) ** 2)
            else:
                B = HD.BHamiltonianFlow if k == 'Dynamics' else HD.BOdeFlow
                f = lambda x, y: jnp.mean((B(m, x[0], x[1][0]) - y) ** 2)
            return f
        gv = objax.Jit(objax.GradValues(loss(ref), ref.vars()), ref.vars()); ropt = objax.optimizer.Adam(ref.vars()); rload = loader('train', 1)
        def metrics(name, frame_model):
            """what the metrics of a loader should be, from the parameters of the model"""
            d = data['train' if name == 'Train' else name]; bs = min(cfg['bs'], len(d)); res = {}
            if len(d) % bs: return {}
            X, Y = np.asarray(d.xs), np.asarray(d.ys)
            if k in ('Regressor', 'RegressorPlus', 'Classifier'):
                P = np.asarray(frame_model(jnp.asarray(X), False))
                if k == 'Classifier': res['Acc'] = ((P.argmax(-1) == Y).mean(), 1e-5 + (np.abs(P[:, 0] - P[:, 1]) < 1e-5).mean())
                else: res['MSE'] = (((P - Y) ** 2).mean(), 1e-4)
            else:
                e = (flow(frame_model.w.value, X.astype(float), d.T) - Y) ** 2; res['MSE'] = (e.mean(), 2e-2)
            return res
        def rollout(frame_model):
            d = data['test']; z0 = np.asarray(d.xs, float); a = flow(frame_model.w.value, z0, d.T_long); b = np.stack([z0 @ R(float(t)).T for t in d.T_long], 1)
            e = np.sqrt(((a - b) ** 2).mean(-1)) / (np.sqrt((a ** 2).mean(-1)) + np.sqrt((b ** 2).mean(-1))); e = e[:, 1:]
            return np.exp(np.log(np.clip(e, 1e-7, None)).mean() * 5 / 6 + np.log(1e-7) / 6), e.min() # (the errors of the first point vanish)
        copy = lambda a, b: b.assign([jnp.array(x) for x in a.tensors()])
        assert [v.value.shape for v in mv.values()] == [v.value.shape for v in ref.vars().values()]
        copy(mv, ref.vars())
        return dict(cfg=cfg, tr=tr, model=model, ref=ref, gv=gv, ropt=ropt, rload=rload, data=data, lrs=lrs, sched=sched, copy=copy, metrics=metrics, rollout=rollout, loaders=loaders, stop=stop, spe=len(rload), mv=mv)

    def run(s, profile=False):
        core.start_process(extra=('trainer.hamiltonian_dynamics', 'trainer.model_trainer', 'trainer.utils', 'emlp.nn.objax'), **s['proc'])
        m = sys.modules; mods = (m['trainer.model_trainer'], m['trainer.hamiltonian_dynamics'], m['trainer.trainer'], m['trainer.classifier'], m['trainer.utils'], m['emlp.groups'], m['emlp.reps'], m['emlp.nn.objax'])
        clock = Clock(*s['clock']); LL.time = clock; viol = []
        for name, mod in list(m.items()):
            if name.startswith('trainer'):
                for a, v in list(vars(mod).items()):
                    if v is core._clock: setattr(mod, a, clock)
        ts = [build(c, None, mods) for c in s['trainers']]
        core._sched = None
        np.random.seed(s['seed'] % 2**32); torch.manual_seed(s['seed']); rnd.seed(s['seed'])
        sched = core.Sched(s.get('preempt', ()), s.get('faults', ()), profile=profile, anywhere=len(ts) == 1)
        ref_rng = [rng_state()]
        def client(t):
            T = ts[t]; tr = T['tr']; cfg = T['cfg']; spe = T['spe']; single = len(ts) == 1
            rec = []; state = dict(epoch=0, steps=None, clean=True, total=0)
            def watch(c):
                real_add = tr.logger.add_scalars
                def add(tag, dic, step=None, *a, **k):
                    c.quiet += 1; keep = rng_state()
                    try: rec.append((dict(dic), step, [np.array(v.value) for v in T['mv'].values()])); check(dict(dic), f'client {t}, metrics recorded for step {step}')
                    except Violation as v: viol.append(dict(kind=v.kind, msg=str(v)))
                    finally: c.quiet -= 1; set_rng(keep)
                    return real_add(tag, dic, step, *a, **k)
                tr.logger.add_scalars = add
            def check(dic, msg):
                names = [n for n in T['loaders'] if n != 'train']; out['stats']['recorded'] += 1
                for n in names:
                    for k, (want, tol) in T['metrics'](n, T['model']).items():
                        if f'{n}_{k}' in dic:
                            got = float(np.asarray(dic[f'{n}_{k}'])); out['stats']['metrics_checked'] += 1; out['evals'] += 1
                            if not abs(got - want) <= tol * max(1, abs(want)): raise Violation('metrics', f'{msg}: {n}_{k} is {got:.6g}, the parameters give {want:.6g}')
                if 'test_Rollout' in dic and cfg['nt'] % min(cfg['bs'], cfg['nt']) == 0:
                    want, low = T['rollout'](T['model']); got = float(np.asarray(dic['test_Rollout']))
                    if low > 2e-2 and not abs(np.log(got / want)) < .15: raise Violation('metrics', f'{msg}: test_Rollout is {got:.4g}, the parameters give {want:.4g}')
                    out['stats']['metrics_checked'] += 1
                if 'test_equivar_err' in dic and not 0 <= float(dic['test_equivar_err']) < 1e-3: raise Violation('metrics', f'{msg}: the equivariance error of an equivariant network is {dic["test_equivar_err"]}')
            def reference(e0, e1):
                """trains the reference without ever logging; returns the learning rate positions"""
                pos = []
                if single: mine = rng_state(); set_rng(ref_rng[0])
                D = T['data']['train']; fail, D.fail = D.fail, None
                for e in range(e0, e1):
                    for i, mb in enumerate(T['rload']):
                        g, _ = T['gv'](*mb); p = e + i / spe; pos.append(p); T['ropt'](T['sched'](p), g)
                D.fail = fail
                if single: ref_rng[0] = rng_state(); set_rng(mine)
                return pos
            def compare(msg):
                for what, a, b in (('parameters', T['mv'], T['ref'].vars()), ('optimizer state', tr.optimizer.vars(), T['ropt'].vars())):
                    for (n, x), y in zip(a.items(), b.values()):
                        x, y = np.asarray(x.value, float), np.asarray(y.value, float)
                        if not np.abs(x - y).max(initial=0) <= 2e-4 * max(.05, np.abs(y).max(initial=0)): raise Violation('updates', f'{msg}: {what} {n.split(").")[-1]} differ by {np.abs(x - y).max():.3g} from training in one go without logging')
            def resync():
                T['copy'](T['mv'], T['ref'].vars()); T['copy'](tr.optimizer.vars(), T['ropt'].vars())
                if single: ref_rng[0] = rng_state()
            def body(c):
                watch(c); done = 0
                for i, op in enumerate(s['clients'][t]):
                    if viol: return
                    e0 = tr.epoch; msg = f'client {t} ({cfg["kind"]}, {spe} steps per epoch, clock {s["clock"][0]}) op {i} {op} from epoch {e0}'
                    fired = len([f for f in sched.fired if f[0] == t]); T['lrs'].clear(); rec.clear(); nread = clock.n
                    if op[0] == 'fail': T['data']['train'].fail = op[1]; T['data']['train'].n = 0; continue
                    armed = T['data']['train'].fail is not None
                    n = op[1] if op[0] in ('train', 'to') else 0
                    try:
                        if op[0] == 'less':
                            if e0 == 0: continue
                            try: tr.train_to(e0 - 1)
                            except AssertionError: pass
                            else: raise Violation('epochs', f'{msg}: training to an earlier epoch was accepted')
                        elif op[0] == 'train': tr.train(n)
                        else: tr.train_to(e0 + n)
                    except core.Abort: raise
                    except Violation as v: viol.append(dict(kind=v.kind, msg=str(v))); return
                    except BaseException as e:
                        inj = len([f for f in sched.fired if f[0] == t]) > fired or (armed and T['data']['train'].fail is None)
                        if not inj: viol.append(dict(kind='error', msg=f'{msg} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}')); return
                        out['stats']['interrupted_calls'] += 1; state['clean'] = False
                        if armed and T['data']['train'].fail is None: out['faults']['failing loader'] = out['faults'].get('failing loader', 0) + 1
                        c.quiet += 1
                        try:
                            # epochs completed, from the learning rate positions that were asked for; the last step may not have been done
                            k = len(T['lrs']); lo, hi = e0 + max(0, (k - 1)) // spe, e0 + k // spe
                            if not (isinstance(tr.epoch, int) and max(e0, lo - 1 if (k - 1) % spe == 0 and k > 1 else lo) <= tr.epoch <= max(hi, e0)): viol.append(dict(kind='epochs', msg=f'{msg} was interrupted after {k} steps and says it is at epoch {tr.epoch}')); return
                            resync()
                        finally: c.quiet -= 1
                        continue
                    c.quiet += 1
                    try:
                        out['stats']['calls'] += 1; out['evals'] += 1
                        if len([f for f in sched.fired if f[0] == t]) > fired or (armed and T['data']['train'].fail is None and op[0] != 'less'): # swallowed by a library below
                            state['clean'] = False; resync(); continue
                        if tr.epoch != e0 + n: raise Violation('epochs', f'{msg}: the epoch counter is {tr.epoch}')
                        pos = reference(e0, e0 + n); out['stats']['updates'] += len(pos)
                        if op[0] == 'less': continue
                        seen = [x for j, x in enumerate(T['lrs']) if j == 0 or x != T['lrs'][j - 1]]
                        if len(seen) != len(pos) or np.abs(np.array(seen) - np.array(pos)).max(initial=0) > 1e-6: raise Violation('schedule', f'{msg}: the learning rate schedule was evaluated at {seen[:12]} instead of {pos[:12]}')
                        compare(msg)
                        if not state['clean']: out['stats']['continued'] += 1
                        now = [np.array(v.value) for v in T['mv'].values()]
                        final = [q for q in rec if all(np.array_equal(a, b) for a, b in zip(q[2], now)) and any('test' in k for k in q[0])]
                        if not final: raise Violation('metrics', f'{msg}: no metrics were recorded for the final parameters ({len(rec)} records)')
                        for nm in T['loaders']:
                            if nm == 'train' : continue
                            if not any(any(k.startswith(nm + '_') for k in q[0]) for q in final): raise Violation('metrics', f'{msg}: no metrics of {nm} were recorded for the final parameters')
                        if pos and not any(q[1] == (e0 + n) * spe - 1 for q in final): raise Violation('metrics', f'{msg}: the final metrics are recorded for step {final[-1][1]} instead of {(e0 + n) * spe - 1}')
                        out['stats']['lazy_logs'] += len(rec) - len(final)
                        done += len(pos)
                        if state['clean']: # (an interrupt may come between recording metrics and keeping the checkpoint)
                            if tr.ckpt is None: raise Violation('checkpoint', f'{msg}: there is no checkpoint record')
                            fr = tr.logger.scalar_frame
                            if T['stop']:
                                col = fr[T['stop']].dropna(); best = col.max() if 'Acc' in T['stop'] else col.min(); have = tr.ckpt['outcome'][T['stop']].iloc[-1]
                                if have != best: raise Violation('checkpoint', f'{msg}: the checkpoint has {T["stop"]} {have}, the best recorded is {best}')
                            elif pos and not tr.ckpt['outcome'].equals(fr[-1:]): raise Violation('checkpoint', f'{msg}: the checkpoint record is not that of the latest metrics')
                    except Violation as v: viol.append(dict(kind=v.kind, msg=str(v))); return
                    finally: c.quiet -= 1; out['stats']['clock_readings'] += clock.n - nread
                if done: out['sigs'].add(sha([cfg, s['clients'][t], s['clock'], s.get('preempt'), s.get('faults')]))
            return body
        import io, contextlib
        sink = io.StringIO()
        with contextlib.redirect_stderr(sink), contextlib.redirect_stdout(sink): cs = sched.run([client(t) for t in range(len(ts))])
        for c in cs:
            if c.exc is not None: raise c.exc
        out['stats']['runs'] += 1; out['stats']['switches'] += len(sched.switches); out['stats']['scheduling_points'] += sched.total; out['simtime'] += abs(clock.t - 1e9)
        out['faults']['clock ' + s['clock'][0]] = out['faults'].get('clock ' + s['clock'][0], 0) + 1
        for f in sched.fired: out['faults'][f[2]] = out['faults'].get(f[2], 0) + 1
        if sched.dead and not viol: viol.append(dict(kind='blocked', msg=sched.dead))
        if viol: out['violation'] = viol[0]; out['concrete'] = s
        core.kill_process()
        return sched
    if plan is None: run(scn)
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}; rng = rnd.Random(plan['seed']); n = len(scn['clients'])
        r = run(base, True)
        for j in range(plan['k']):
            if out['violation']: break
            s = dict(base, clock=[rng.choice(CLOCKS), rng.randrange(1 << 30)])
            if n > 1:
                pre = {}
                for _ in range(rng.choice([1, 3, 10, 30])):
                    for t, st in pick_points(rng, r.lines, 1): pre[(t, st)] = 1 - t
                s['preempt'] = [[a, b, c] for (a, b), c in sorted(pre.items())]
            if rng.random() < .7: s['faults'] = [[t, st, rng.choice(['interrupt', 'memory', 'runtime'])] for t, st in pick_points(rng, r.lines, rng.choice([1, 1, 2]))]
            else:
                t = rng.randrange(n); cl = [list(c) for c in s['clients']]; cl[t].insert(rng.randrange(len(cl[t])), ['fail', rng.randint(1, 2 * scn['trainers'][t]['n'] + 1)]); s['clients'] = cl
            run(s)
        out['sample'] = dict(trainers=[(c['kind'], c['lr']) for c in scn['trainers']], clients=scn['clients'], clock=scn['clock'][0])
    out['sigs'] = sorted(out['sigs'])
    return out
def axes(scn): return [('clients', t) for t in range(len(scn['clients']))] + [(k,) for k in ('preempt', 'faults') if scn.get(k)]
def simplify(scn):
    import copy
    for t, c in enumerate(scn['trainers']):
        for k, v in (('alias', False), ('nv', 0), ('stop', False), ('lr', 'const'), ('n', c['bs'])):
            if c[k] != v: d = copy.deepcopy(scn); d['trainers'][t][k] = v; yield d
    for t, ops in enumerate(scn['clients']):
        for i, op in enumerate(ops):
            if len(op) > 1 and op[1] > 1: d = copy.deepcopy(scn); d['clients'][t][i][1] = 1; yield d
def valid(scn): return True
