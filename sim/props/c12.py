import random
from .common import *
from .c11 import Draws, label
COUNTS = {'quick': 90, 'thorough': 4000}
RULE = ('A case is a history of calls (training, evaluation, default; any batch size; also gradients, calls of failing models, and sampling by others) by one or two client threads of shared augmented models in one simulated process under a scripted random number generator, with threads switched and interrupts or allocation failures injected at executed lines. '
        'Models: arbitrary ones that record what reaches them, networks and layers of the library, and the label functions of the data sets with their own default augmentation. The input that reaches the model is decomposed to find the group element used for each example; it must be an element of the group, the whole input must be transformed by it and the output by its inverse, '
        'and elements must differ between examples and calls. Equivariant models must give the same outputs, and the same gradients, with and without augmentation. '
        'Non-trivial: a training call in which some input is moved; counted once per distinct (model, call, draws).')
MEASURE = 'distinct (augmented model, call, draws) with an input that was moved'
ASSUMPTIONS = ['elements are recovered from a block of d vectors in the input; those with condition number above 300 are counted as undecided', 'the group elements drawn are judged against the defining equations as in C05']
REAL = REAL + ['objax']
STUBS = STUBS + ['numpy random generator (scripted)']
TIMEOUT = 240
def generate(rng, i, tier):
    import nets, oracle, gen
    spec = nets.random_group(rng); d = oracle.group(spec)[0]; dims = {0: d}
    models = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < .5:
            for _ in range(50):
                pre, post = [[nets.abstract(rng, rng.randint(0, 2))] if rng.random() < .6 else [] for _ in range(2)]
                rin = ['sum'] + pre + [['mul', d, ['Vf']]] + post if pre or post else ['mul', d, ['Vf']]
                if oracle.size(gen.norm(rin, {}, 0), dims) <= 40: break
            for _ in range(50):
                rout = nets.abstract(rng, rng.randint(0, 2))
                if oracle.size(gen.norm(rout, {}, 0), dims) <= 16: break
            models.append(['rec', rin, rout, pre[0] if pre else None, rng.randrange(1 << 30)])
        elif r < .75: models.append(['net', nets.random_config(rng, spec, 'objax', ('EMLP',)), rng.randrange(1 << 30)])
        else: models.append(['ds', rng.choice(['Inertia', 'O5Synthetic', 'ParticleInteraction']), rng.choice([2, 9]), rng.randrange(1 << 30)])
    if sum(m[0] == 'net' for m in models) > 1: models = [m for m in models if m[0] != 'net'] + [m for m in models if m[0] == 'net'][:1]
    clients = []; sizes = rng.choice([[1, 8], [3, 20], [2, 2], [1, 5]])
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(3, 9)):
            k = rng.randrange(len(models)); s = rng.randrange(1 << 30)
            mode = rng.choice(['typical', 'typical', 'typical', 'extreme', 'zero', 'repeat', 'max', 'min'])
            r = rng.random()
            if r < .75: ops.append(['call', k, rng.choice(['train', 'train', 'default', 'eval']), rng.choice(sizes), mode, s])
            elif r < .81: ops.append(['grad', k, 'train', sizes[0], mode, s])
            elif r < .91: ops.append(['bad', k, 'train', rng.choice(sizes), mode, s])
            else: ops.append(['sample', k, 'train', rng.choice(sizes), mode, s])
        clients.append(ops)
    scn = dict(specs=[spec], models=models, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=clients, plan=dict(k=1 if tier == 'quick' else 5, seed=rng.randrange(1 << 30)))
    if i % 16 == 0: scn['clients'][0].append(['compiled', 0, 'train', 4, 'typical', rng.randrange(1 << 30)])
    return scn

class Bad(Exception): pass
DSPEC = {'Inertia': ['O', 3], 'O5Synthetic': ['O', 5], 'ParticleInteraction': ['Lorentz']}
def execute(scn):
    import numpy as np, sys, core, oracle, history, nets, members, gen, random as rnd, jax, jax.numpy as jnp, objax
    from world import World, Env, Violation, show, gname
    plan = scn.get('plan')
    out = dict(violation=None, known=set(), evals=0, sigs=set(), faults={}, stats=dict(runs=0, calls=0, elements=0, undecided=0, gradients=0, switches=0, scheduling_points=0, survived_faults=0), simtime=0.)
    real = {k: getattr(np.random, k) for k in ('randn', 'randint', 'permutation')}
    spec0 = scn['specs'][0]
    def restore():
        for k, v in real.items(): setattr(np.random, k, v)
    def run(s, profile=False):
        w = World(s['specs'], extra=('emlp.datasets',), **s['proc']); env = Env(w); D = sys.modules['emlp.datasets']; viol = []
        sched = core.Sched(s.get('preempt', ()), s.get('faults', ()), profile=profile); scripts = {}; recs = {}
        def route(name):
            def fn(*a, **k):
                c = sched.me(); sc = scripts.get(c.tid) if c is not None and not c.quiet else None
                return getattr(sc, name)(*a, **k) if sc is not None else real[name](*a, **k)
            return fn
        class Recorder(objax.Module):
            """what the augmentation wraps: keeps what it is given and what it returns"""
            def __init__(self, f, inner=None): super().__init__(); self.f = f; self.m = inner
            def __call__(self, x, training=True):
                c = sched.me()
                if c is None or isinstance(x, jax.core.Tracer): return self.f(x, training)
                if recs.get(c.tid) == 'fail': raise Bad()
                y = self.f(x, training)
                if isinstance(y, jax.core.Tracer): return y
                recs.setdefault(c.tid, []).append((np.array(x), training, np.array(y)))
                return y
        models = []
        for m in s['models']:
            if m[0] == 'rec':
                ni, no = gen.norm(m[1], {}, 0), gen.norm(m[2], {}, 0); a, b = oracle.size(ni, w.dims), oracle.size(no, w.dims); r = np.random.default_rng(m[4]); h = 5
                W1, W2, W3 = (r.standard_normal((a, h)) / np.sqrt(a)).astype(np.float32), r.standard_normal((h, b)).astype(np.float32), r.standard_normal((a, b)).astype(np.float32) / a
                f = lambda x, t, W1=W1, W2=W2, W3=W3: jnp.tanh(x @ W1) @ W2 + x @ W3 + .3
                rec = Recorder(f); aug = D.GroupAugmentation(rec, w.build(m[1], env), w.build(m[2], env), env.group(0))
                models.append(dict(kind='rec', aug=aug, f=f, ni=ni, no=no, spec=spec0, nin=a, at=oracle.size(gen.norm(m[3], {}, 0), w.dims) if m[3] else 0, what=f'{gname(spec0)}: {show(m[1])} -> {show(m[2])}', seen=[]))
            elif m[0] == 'net':
                net = nets.Net(w, env, m[1], m[2]); ni, no = nets.norms(m[1]); rec = Recorder(net.m, net.m)
                aug = D.GroupAugmentation(rec, w.build(m[1]['rin'], env), w.build(m[1]['rout'], env), env.group(0))
                if set(map(id, aug.vars().values())) != set(map(id, net.m.vars().values())): raise Violation('vars', 'the augmented network does not have the variables of the network')
                models.append(dict(kind='net', aug=aug, f=lambda x, t, n=net.m: n(x, t), net=net, ni=ni, no=no, spec=spec0, nin=net.nin, at=None, what=f'{gname(spec0)} EMLP: {show(m[1]["rin"])} -> {show(m[1]["rout"])}', seen=[]))
            else:
                np.random.seed(m[3] % 2**32)
                ds = D.Inertia(m[2], k=4) if m[1] == 'Inertia' else getattr(D, m[1])(m[2])
                f = lambda x, t, k=m[1]: jnp.asarray(label(k, np.asarray(x), 4)[0], dtype=jnp.float32)
                rec = Recorder(f); aug = ds.default_aug(rec); sp = DSPEC[m[1]]
                ni = {'Inertia': ['sum', ['mul', 4, ['S']], ['mul', 4, ['V', 0]]], 'O5Synthetic': ['mul', 2, ['V', 0]], 'ParticleInteraction': ['mul', 4, ['V', 0]]}[m[1]]
                no = ['prod', ['V', 0], ['V', 0]] if m[1] == 'Inertia' else ['S']
                models.append(dict(kind='ds', aug=aug, f=f, ni=ni, no=no, spec=sp, nin=np.shape(ds.X)[1], at={'Inertia': 4, 'O5Synthetic': None, 'ParticleInteraction': 0}[m[1]], ds=m[1], what=f'default_aug of {m[1]}', seen=[]))
        def inputs(m, n, rng):
            d = oracle.group(m['spec'])[0]; x = rng.standard_normal((n, m['nin']))
            if m['kind'] == 'ds' and m['ds'] == 'Inertia': x[:, :4] = np.abs(x[:, :4])
            if m['at'] is not None:
                for j in range(n): x[j, m['at']:m['at'] + d * d] = np.linalg.qr(rng.standard_normal((d, d)))[0].reshape(-1)
            return x.astype(np.float32)
        def check(m, op, x, y, calls, msg):
            n = len(x); d = oracle.group(m['spec'])[0]; y = np.asarray(y); plain = np.asarray(m['f'](jnp.asarray(x), False))
            out['stats']['calls'] += 1; out['evals'] += 1
            if len(calls) != 1: raise Violation('calls', f'{msg}: the model was called {len(calls)} times')
            z, flag, r = calls[0]
            if z.shape != x.shape or y.shape != plain.shape: raise Violation('shape', f'{msg}: input of shape {z.shape}, output of shape {y.shape}')
            if op[2] == 'eval':
                if flag is not False and flag != False: raise Violation('training', f'{msg}: the model was told to train')
                if not np.array_equal(z, x) or np.abs(y - plain).max(initial=0) > 1e-6 * max(1, np.abs(plain).max(initial=0)): raise Violation('eval', f'{msg}: evaluation differs from the model without augmentation')
                return
            if not flag: raise Violation('training', f'{msg}: the model was not told to train')
            if np.abs(z - x).max() > 1e-3: out['sigs'].add(sha([s['models'][op[1]], op[2:]]))
            if m['at'] is not None:
                gs = []
                for j in range(n):
                    V = x[j, m['at']:m['at'] + d * d].reshape(d, d).astype(float); g = (V.T @ z[j, m['at']:m['at'] + d * d].reshape(d, d)).T  # rows: g v
                    why = members.why_not(m['spec'], g); out['stats']['elements'] += 1
                    if why: raise Violation('element', f'{msg}: the element of example {j} is not in the group: {why}')
                    cond = np.linalg.cond(g); gs.append(g)
                    if cond > 300: out['stats']['undecided'] += 1; continue
                    Ri, Ro = oracle.rho(m['ni'], {0: g}), oracle.rho(m['no'], {0: g}); iv = np.linalg.inv(Ro)
                    if np.abs(z[j] - Ri @ x[j]).max() > 1e-3 * max(1, np.abs(Ri).max()) * max(1, cond / 30): raise Violation('input', f'{msg}: the input of example {j} is not transformed by the representation of the element')
                    if np.abs(y[j] - iv @ r[j]).max(initial=0) > 2e-3 * max(1, np.abs(iv).max()) * max(1, np.abs(r[j]).max(initial=0)) * max(1, cond / 30): raise Violation('output', f'{msg}: the output of example {j} is not transformed back by the inverse of the same element')
                _, lie, dis = oracle.group(m['spec'])
                if op[4] == 'typical' and (lie or dis):
                    key = [tuple(np.round(g, 4).ravel() + 0.) for g in gs]
                    if lie and len(set(key)) < n: raise Violation('fresh', f'{msg}: {n} examples share {len(set(key))} elements')
                    if lie and set(key) & set(m['seen']): raise Violation('fresh', f'{msg}: elements of an earlier call are used again')
                    m['seen'] += key
                    if not lie and n >= 20 and len(set(key)) < 2 and len(members.finite_elements(m['spec']) if members.finite_elements(m['spec']) is not None else 'xx') > 1: raise Violation('fresh', f'{msg}: all {n} examples share one element')
            if m['kind'] == 'ds':
                k = m['ds']; a, b = label(k, x, 4), label(k, z, 4); tol = 1e-3 + 1e-4 * (a[1] + b[1] * (1 if k != 'Inertia' else 3))
                if (np.abs(y - a[0]).max(1) > tol).any(): raise Violation('equivariant', f'{msg}: an equivariant function changed under augmentation')
            if m['kind'] == 'net': same(m, x, z, y, plain, r, msg)
        def same(m, x, z, y, plain, r, msg, what='outputs'):
            amp = max(1., np.abs(z).max() / np.abs(x).max(), np.abs(r).max(initial=0) / max(1e-6, np.abs(plain).max(initial=0)), np.abs(plain).max(initial=0) / max(1e-6, np.abs(r).max(initial=0)))
            sc = max(np.abs(plain).max(initial=0), np.abs(y).max(initial=0))
            if amp > 12 or not np.isfinite(sc): out['stats']['undecided'] += 1; return
            if np.abs(y - plain).max(initial=0) > 5e-3 * amp ** 2 * sc + 1e-4: raise Violation('equivariant', f'{msg}: an equivariant network changed under augmentation by {np.abs(y - plain).max():.3g} (scale {sc:.3g})')
        def client(t):
            def body(c):
                for i, op in enumerate(s['clients'][t]):
                    if viol: return
                    if op[1] >= len(models): continue
                    m = models[op[1]]; rng = np.random.default_rng(op[5]); fired = len([f for f in sched.fired if f[0] == t])
                    msg = f'client {t} op {i} {op[0]} {op[2]} of {op[3]} under {op[4]} draws (seed {op[5]}), {m["what"]}'
                    x = inputs(m, op[3], rng); a = {'train': (True,), 'eval': (False,), 'default': ()}[op[2]]
                    try:
                        if op[0] in ('call', 'bad', 'sample', 'grad'): scripts[t] = Draws(op[4], op[5])
                        try:
                            if op[0] == 'call':
                                recs[t] = []; y = m['aug'](jnp.asarray(x), *a); calls = recs[t]
                                c.quiet += 1
                                try: check(m, op, x, y, calls, msg)
                                finally: c.quiet -= 1
                            elif op[0] == 'bad':
                                recs[t] = 'fail'
                                try: m['aug'](jnp.asarray(x), True)
                                except Bad: out['faults']['failing model'] = out['faults'].get('failing model', 0) + 1
                                else: raise Violation('error', f'{msg}: the failure of the model was swallowed')
                                finally: recs[t] = []
                            elif op[0] == 'sample': m['aug'].G.samples(op[3])
                            elif op[0] == 'grad' and m['kind'] == 'net':
                                vs = m['net'].m.vars(); t0 = jnp.asarray(rng.standard_normal(np.shape(m['net'](x))), dtype=jnp.float32)
                                if m['net'].nout == 0: continue
                                gv = lambda f: objax.GradValues(lambda v: (((f(v) - t0)) ** 2).mean(), vs)
                                recs[t] = []; g1, v1 = gv(lambda v: m['aug'](v, True))(jnp.asarray(x))
                                c.quiet += 1
                                try:
                                    g0, v0 = gv(lambda v: m['net'].m(v, True))(jnp.asarray(x)); out['stats']['gradients'] += 1; out['evals'] += 1
                                    orth = oracle.is_orthogonal(m['spec'])
                                    if orth and abs(float(v1[0]) - float(v0[0])) > 1e-2 * abs(float(v0[0])) + 1e-3: raise Violation('equivariant', f'{msg}: the loss of an equivariant network is {v1[0]} with and {v0[0]} without augmentation')
                                    sc = max(float(jnp.abs(g).max(initial=0)) for g in g0)
                                    for ga, gb in zip(g1, g0):
                                        if orth and float(jnp.abs(ga - gb).max(initial=0)) > 3e-2 * sc + 1e-3: raise Violation('gradient', f'{msg}: gradients of an equivariant network change under augmentation')
                                finally: c.quiet -= 1
                            elif op[0] == 'compiled':
                                c.quiet += 1
                                try:
                                    G = env.group(0); d = G.d; R = w.mods['reps']
                                    if oracle.group(spec0)[1]:
                                        aug = D.GroupAugmentation(Recorder(lambda v, tr: jnp.tanh(v)), R.V, R.V, G); step = objax.Jit(lambda v: aug(v, True), aug.vars()); v = jnp.asarray(rng.standard_normal((4, d)), dtype=jnp.float32)
                                        if np.array_equal(np.asarray(step(v)), np.asarray(step(v))): out['known'].add('compiled-augmentation')
                                finally: c.quiet -= 1
                        finally: scripts.pop(t, None)
                    except core.Abort: raise
                    except Violation as v: viol.append({'kind': v.kind, 'msg': str(v)}); return
                    except BaseException as e:
                        if len([f for f in sched.fired if f[0] == t]) > fired: out['stats']['survived_faults'] += 1; continue
                        viol.append({'kind': 'error', 'msg': f'{msg} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}'}); return
            return body
        for k in real: setattr(np.random, k, route(k))
        try: cs = sched.run([client(t) for t in range(len(s['clients']))])
        finally: restore()
        for c in cs:
            if c.exc is not None: raise c.exc
        out['stats']['runs'] += 1; out['stats']['switches'] += len(sched.switches); out['stats']['scheduling_points'] += sched.total; out['simtime'] += sched.now - 1e9
        for f in sched.fired: out['faults'][f[2]] = out['faults'].get(f[2], 0) + 1
        if sched.dead and not viol: viol.append({'kind': 'blocked', 'msg': sched.dead})
        if viol: out['violation'] = viol[0]; out['concrete'] = s
        return sched
    def guarded(*a):
        from world import Violation
        try: return run(*a)
        except Violation as v: out['violation'] = {'kind': v.kind, 'msg': str(v)}; out['concrete'] = a[0]
        except core.HarnessError: raise
        except Exception as e:
            if not history.where(e) or 'sim/' in history.where(e): raise
            out['violation'] = {'kind': 'error', 'msg': f'building the augmented models raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}'}; out['concrete'] = a[0]
        return None
    if plan is None: guarded(scn)
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}
        r = guarded(base, True); rng = rnd.Random(plan['seed']); n = len(scn['clients'])
        for j in range(plan['k']):
            if out['violation'] or r is None: break
            s = dict(base)
            if n > 1:
                pre = {}
                for _ in range(rng.choice([1, 3, 10])):
                    for t, st in pick_points(rng, r.lines, 1): pre[(t, st)] = rng.choice([u for u in range(n) if u != t])
                s['preempt'] = [[a, b, c] for (a, b), c in sorted(pre.items())]
            if n == 1 or rng.random() < .5: s['faults'] = [[t, st, rng.choice(['interrupt', 'memory', 'runtime'])] for t, st in pick_points(rng, r.lines, 1)]
            guarded(s)
        out['sample'] = dict(models=[m[0] if m[0] != 'ds' else m[1] for m in scn['models']], clients=[[o[:5] for o in c[:6]] for c in scn['clients']])
    out['sigs'] = sorted(out['sigs']); out['known'] = sorted(out['known'])
    return out
def axes(scn): return [('clients', t) for t in range(len(scn['clients']))] + [(k,) for k in ('preempt', 'faults') if scn.get(k)]
def simplify(scn):
    import copy
    for t, ops in enumerate(scn['clients']):
        for i, op in enumerate(ops):
            for n in (1, 2):
                if op[3] > n: c = copy.deepcopy(scn); c['clients'][t][i][3] = n; yield c
            if op[4] != 'typical': c = copy.deepcopy(scn); c['clients'][t][i][4] = 'typical'; yield c
