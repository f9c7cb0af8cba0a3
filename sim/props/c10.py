import random
from .common import *
COUNTS = {'quick': 90, 'thorough': 2200}
RULE = ('A case is one simulated process in which 1 to 3 client threads run forward passes (with and without gradients), backward passes of any pending pass in any order (also repeated ones, and ones for a subset of the arguments), in place updates of parameters between them, failing calls, and injected interrupts and allocation failures, '
        'through shared functions carried into pytorch (tensor, dict, list, integer, boolean and number arguments; tensor, tuple and dict results) and layers and networks of the library; threads are switched at executed lines of the bridge. '
        'Every value and gradient must be that of jax on a copy of the inputs of that very forward pass (for networks: of an isolated pass, and of finite differences). '
        'Non-trivial: a backward pass whose own forward pass was not the last one on that function, or whose arguments changed in between; counted once per distinct (history, switches).')
MEASURE = 'distinct (history, switches) with a backward pass that was not immediately after its forward pass'
ASSUMPTIONS = ['threads are switched at line boundaries of the library, also below frames of torch, but not below frames of jax', 'gradients agree to 1e-4 relative; finite differences to 8%']
REAL = REAL + ['torch autograd', 'jax vjp']
TIMEOUT = 240
FUNCS = ['affine', 'dict', 'tuple', 'index', 'number', 'mask', 'list', 'jitted', 'dictout', 'power', 'scan', 'ident', 'scalar']
def generate(rng, i, tier):
    import nets
    models = []
    spec = nets.random_group(rng, 3)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .3: models.append(['net', nets.random_config(rng, spec, 'pytorch', ('Linear', 'Linear', 'BiLinear', 'Block', 'EMLP')), rng.randrange(1 << 20)])
        else: models.append(['fn', rng.choice(FUNCS)])
    nets_ = [m for m in models if m[0] == 'net']
    for m in nets_[1:]: models.remove(m)
    n = rng.choice([1, 1, 2, 2, 3]); clients = []
    for t in range(n):
        ops = []; pend = 0
        for _ in range(rng.randint(4, 14)):
            r = rng.random(); s = rng.randrange(1 << 30)
            if r < .45 or not pend: ops.append(['fwd', rng.randrange(len(models)), rng.choice(['grad', 'grad', 'grad', 'some', 'none', 'no_grad']), s]); pend += 1
            elif r < .75: ops.append(['bwd', rng.randrange(pend), rng.choice(['grad', 'accumulate', 'keep', 'part']), s])
            elif r < .88:
                k = rng.randrange(pend); ops.append(['inplace', k, rng.choice([10., -1., 0.]), s])
                if rng.random() < .6: ops.append(['again', k, rng.choice(['grad', 'grad', 'some', 'none', 'no_grad']), s + 1]); pend += 1
            elif r < .93: ops.append(['again', rng.randrange(pend), rng.choice(['grad', 'grad', 'some', 'none', 'no_grad']), s]); pend += 1
            else: ops.append(['bad', rng.randrange(len(models)), 0, s])
        ops += [['bwd', k, 'grad', rng.randrange(1 << 30)] for k in range(pend) if rng.random() < .7]
        clients.append(ops)
    return dict(specs=[spec], models=models, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=clients, plan=dict(k=4 if tier == 'quick' else 12, seed=rng.randrange(1 << 30)))

def functions():
    import jax, jax.numpy as jnp
    return {
        'affine': lambda w, x: jnp.tanh(w @ x), 'dict': lambda p: p['a'] * p['b'] + p['a'].sum(), 'tuple': lambda x, y: (x * x * y, jnp.sin(x)), 'index': lambda w, i: w[i] ** 2,
        'number': lambda w, c: jnp.exp(w) * c, 'mask': lambda x, m: jnp.where(m, jnp.exp(x), x), 'list': lambda xs, y: xs[0] * xs[1] + y, 'jitted': jax.jit(lambda w, x: w * w * x),
        'dictout': lambda x, y: {'a': x * y, 'n': jnp.argmax(x), 'b': (x + y, x.sum())}, 'power': lambda x, y: x ** 3 * y, 'scan': lambda x, w: jax.lax.fori_loop(0, 3, lambda i, v: v * w + 1, x), 'ident': lambda x, y: (y, x), 'scalar': lambda x: (x * x).sum()}
def arguments(name, rng, client):
    """tensors of a call; floats in a flat list so that they can be updated in place"""
    import torch
    n = [1, 3, 4, 16][rng.integers(4)]
    T = lambda *s: torch.from_numpy((rng.standard_normal(s) * .7).astype('float32'))
    if name == 'affine': return (T(n, n), T(n))
    if name == 'dict': return ({'a': T(n), 'b': T(n), 'none': None},)
    if name == 'index': return (T(5), torch.from_numpy(rng.integers(0, 5, 3)))
    if name == 'number': return (T(n), float(rng.integers(1, 5)))
    if name == 'mask': return (T(n), torch.from_numpy(rng.integers(0, 2, n) > 0))
    if name == 'list': return ([T(n), T(n)], T(n))
    if name == 'scalar': return (T(n),)
    return (T(n), T(n))

def execute(scn):
    import numpy as np, sys, copy, core, history, nets, random as rnd, torch, jax, jax.numpy as jnp
    from jax.tree_util import tree_flatten, tree_unflatten
    from world import World, Env, Violation
    torch.set_num_threads(1)
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=0, forward=0, backward=0, delayed=0, switches=0, failed=0, scheduling_points=0))
    tonp = lambda t: t.detach().numpy().copy() if isinstance(t, torch.Tensor) else t
    FN = functions()
    def close(a, b, tol=1e-4):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1., np.abs(b).max(initial=0)) + 1e-6))
    def run(s, profile=False):
        w = World(s['specs'], extra=('emlp.nn.pytorch',), **s['proc']); env = Env(w); pt = sys.modules['emlp.nn.pytorch']
        torch.manual_seed(s['proc']['npseed'])
        models = []
        for m in s['models']:
            if m[0] == 'fn': models.append((m[1], pt.torchify_fn(FN[m[1]])))
            else: models.append(('net', nets.Net(w, env, m[1], m[2]).m, nets.norms(m[1])))
        calls = [0] * len(models); viol = []; delayed = [0]; sched = core.Sched(s.get('preempt', ()), s.get('faults', ()), profile=profile)
        nin = {k: nets_in(w, m) for k, m in enumerate(models) if m[0] == 'net'}
        mods = {(k, t): copy.deepcopy(m[1]) for k, m in enumerate(models) if m[0] == 'net' for t in range(len(s['clients']))} # (functional_call exchanges the parameters of its module while it runs)
        def forward(k, how, rng, t, old=None):
            m = models[k]
            if old is not None: # the same tensors once more, with the values that they have by now
                p = dict(old); leaves, f, ref = p['leaves'], p['f'], p['ref']
                return finish(k, how, rng, leaves, f, ref, True)
            if m[0] == 'net':
                x = torch.from_numpy(rng.standard_normal((2, nin[k])).astype('float32'))
                ps = {n: torch.from_numpy(tonp(p)) for n, p in mods[k, t].named_parameters()}; leaves = [x] + list(ps.values())
                names = list(ps)
                f = lambda lv: torch.func.functional_call(mods[k, t], dict(zip(names, lv[1:])), (lv[0],))
                ref = ('net', m[1], names)
            else:
                args = arguments(m[0], rng, t); flat, tree = tree_flatten(args); leaves = [v for v in flat if isinstance(v, torch.Tensor) and v.is_floating_point()]
                def f(lv):
                    it = iter(lv); return m[1](*tree_unflatten(tree, [next(it) if isinstance(v, torch.Tensor) and v.is_floating_point() else v for v in flat]))
                ref = ('fn', m[0], flat, tree)
            return finish(k, how, rng, leaves, f, ref)
        def finish(k, how, rng, leaves, f, ref, old=False):
            need = [how in ('grad', 'no_grad') or (how == 'some' and rng.integers(2) > 0) for _ in leaves]
            if old: # (passes that are pending keep their leaves)
                need = [nd or l.requires_grad for l, nd in zip(leaves, need)]
                if how == 'none' and any(need): how = 'some'
            for l, nd in zip(leaves, need): l.requires_grad_(bool(nd))
            snap = [tonp(l) for l in leaves]
            calls[k] += 1; num = calls[k]
            if how == 'no_grad':
                with torch.no_grad(): y = f(leaves)
            else: y = f(leaves)
            return dict(k=k, leaves=leaves, need=need, snap=snap, y=y, ref=ref, f=f, num=num, how=how, changed=False, done=False, acc=[np.zeros_like(v) for v in snap])
        def expected(p):
            """values and pullback of the inputs of the forward pass"""
            if p['ref'][0] == 'net':
                lv = [torch.from_numpy(v.copy()).requires_grad_(True) for v in p['snap']]
                y = p['f'](lv)
                pull = lambda ct: [tonp(g) if g is not None else np.zeros_like(v) for g, v in zip(torch.autograd.grad(y, lv, torch.from_numpy(ct[0]), retain_graph=True, allow_unused=True), p['snap'])]
                return [tonp(y)], pull
            flat, tree = p['ref'][2:]
            isf = [isinstance(v, torch.Tensor) and v.is_floating_point() for v in flat]
            def fn(lv):
                it = iter(lv); return FN[p['ref'][1]](*tree_unflatten(tree, [next(it) if b else (jnp.asarray(tonp(v)) if isinstance(v, torch.Tensor) else v) for b, v in zip(isf, flat)]))
            ys, vjp = jax.vjp(fn, [jnp.asarray(v.copy()) for v in p['snap']])
            fl, tr = tree_flatten(ys)
            def pull(cts):
                it = iter(cts)
                return [np.asarray(g) for g in vjp(tree_unflatten(tr, [jnp.asarray(next(it)) if jnp.issubdtype(v.dtype, jnp.floating) else np.zeros(v.shape, jax.dtypes.float0) for v in fl]))[0]]
            return [np.asarray(v) for v in fl], pull
        def client(t):
            def body(c):
                pending = []
                for i, op in enumerate(s['clients'][t]):
                    if viol: return
                    fired = len([f for f in sched.fired if f[0] == t]); rng = np.random.default_rng(op[3]); msg = f'client {t} op {i} {op[:3]}'
                    try:
                        if op[0] == 'fwd' and op[1] < len(models) or op[0] == 'again' and op[1] < len(pending):
                            k = op[1] if op[0] == 'fwd' else pending[op[1]]['k']
                            p = forward(k, op[2], rng, t, pending[op[1]] if op[0] == 'again' else None); pending.append(p)
                            c.quiet += 1
                            try:
                                want, p['pull'] = expected(p); got = tree_flatten(p['y'])[0]
                                out['evals'] += 1; out['stats']['forward'] += 1
                                if len(got) != len(want) or not all(close(tonp(a), b) for a, b in zip(got, want)): raise Violation('value', f'{msg}: value of {models[k][0]} is wrong')
                                fl = [a for a in got if isinstance(a, torch.Tensor) and a.is_floating_point()]
                                if op[2] in ('grad',) and p['ref'][0] == 'net' and not fl[0].requires_grad: raise Violation('gradient', f'{msg}: result of {models[k][0]} carries no gradient')
                            finally: c.quiet -= 1
                        elif op[0] == 'bwd' and op[1] < len(pending) and not pending[op[1]]['done']:
                            p = pending[op[1]]
                            if p['how'] in ('none', 'no_grad') or not any(p['need']):
                                for v in tree_flatten(p['y'])[0]:
                                    if isinstance(v, torch.Tensor) and v.requires_grad: raise Violation('gradient', f'{msg}: result needs a gradient that nobody asked for')
                                continue
                            late = calls[p['k']] != p['num'] or p['changed']
                            ys = [v for v in tree_flatten(p['y'])[0] if isinstance(v, torch.Tensor) and v.is_floating_point()]
                            cts = [rng.standard_normal(v.shape).astype('float32') for v in ys]
                            if op[2] == 'part' and len(ys) > 1: cts[rng.integers(len(ys))] *= 0
                            lv = [l for l, nd in zip(p['leaves'], p['need']) if nd]
                            use = [(y, torch.from_numpy(np.array(ct))) for y, ct in zip(ys, cts) if y.requires_grad and not (op[2] == 'part' and not ct.any())]
                            if not use: continue
                            keep = op[2] == 'keep'
                            if not keep: p['done'] = True
                            before = [None if l.grad is None else tonp(l.grad) for l in lv]
                            if op[2] == 'accumulate':
                                torch.autograd.backward([u[0] for u in use], [u[1] for u in use])
                                gs = [None if l.grad is None else tonp(l.grad) - (b if b is not None else 0) for l, b in zip(lv, before)]
                            else:
                                gs = [None if g is None else tonp(g) for g in torch.autograd.grad([u[0] for u in use], lv, [u[1] for u in use], retain_graph=keep, allow_unused=True)]
                                if op[2] != 'part' and rng.integers(2) and keep:
                                    g2 = torch.autograd.grad([u[0] for u in use], lv, [u[1] for u in use], retain_graph=True, allow_unused=True)
                                    for a, b in zip(gs, g2):
                                        if (a is None) != (b is None) or (a is not None and not close(tonp(b), a)): raise Violation('gradient', f'{msg}: a second backward pass of {models[p["k"]][0]} differs from the first')
                            c.quiet += 1
                            try:
                                full = p['pull'](cts); want = [g for g, nd in zip(full, p['need']) if nd]
                                out['evals'] += 1; out['stats']['backward'] += 1
                                if late: out['stats']['delayed'] += 1; delayed[0] += 1
                                for j, (g, wnt) in enumerate(zip(gs, want)):
                                    if g is None: g = np.zeros_like(wnt)
                                    if not close(g, wnt, 1e-3 if p['ref'][0] == 'net' else 1e-4): raise Violation('gradient', f'{msg}: gradient {j} of {models[p["k"]][0]} is {g.ravel()[:4]}, should be {wnt.ravel()[:4]}' + (' (of an earlier forward pass)' if late else ''))
                                if p['ref'][0] == 'net' and keep is False: finite(p, cts[0], full, msg, np.random.default_rng(op[3]))
                            finally: c.quiet -= 1
                        elif op[0] == 'inplace' and op[1] < len(pending):
                            p = pending[op[1]]; j = rng.integers(len(p['leaves']))
                            if p['ref'][0] == 'net' and j == 0: continue # (torch itself keeps the inputs of its own operations)
                            l = p['leaves'][j]; way = rng.integers(3)
                            if way == 0:
                                with torch.no_grad(): l.mul_(op[2]).add_(.5)
                            elif way == 1: l.data.mul_(op[2]).add_(.5)
                            else: l.data = l.data * op[2] + .5
                            for q in pending: q['changed'] |= any(l is x for x in q['leaves'])
                        elif op[0] == 'bad' and op[1] < len(models):
                            m = models[op[1]]
                            if m[0] in ('affine', 'jitted', 'power', 'list') :
                                try:
                                    T = lambda n: torch.ones(n, requires_grad=True)
                                    m[1]([T(2), T(3)], T(4)) if m[0] == 'list' else m[1](T(2), T(3))
                                except core.Abort: raise
                                except Exception: out['stats']['failed'] += 1
                    except core.Abort: raise
                    except Violation as v: viol.append({'kind': v.kind, 'msg': str(v)}); return
                    except BaseException as e:
                        if len([f for f in sched.fired if f[0] == t]) > fired:
                            out['stats']['failed'] += 1
                            continue
                        viol.append({'kind': 'error', 'msg': f'{msg} on {models[op[1]][0] if op[0] in ("fwd", "bad") and op[1] < len(models) else ""} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}'}); return
            return body
        def finite(p, ct, full, msg, rng):
            for _ in range(3): # (kinks of random directions)
                d = [rng.standard_normal(v.shape).astype('float32') for v in p['snap']]; h = 1e-2
                ev = lambda sgn: float((tonp(p['f']([torch.from_numpy(v + sgn * h * u) for v, u in zip(p['snap'], d)])).astype(float) * ct).sum())
                num = (ev(1) - ev(-1)) / (2 * h); ana = sum(float((g.astype(float) * u).sum()) for g, u in zip(full, d)); sc = sum(float(np.abs(g.astype(float) * u).sum()) for g, u in zip(full, d))
                if abs(num - ana) <= .08 * sc + 1e-2: return
            raise Violation('gradient', f'{msg}: gradient of the network along a direction is {ana:.4g}, finite differences give {num:.4g}')
        cs = sched.run([client(t) for t in range(len(s['clients']))])
        for c in cs:
            if c.exc is not None: raise c.exc
        out['stats']['runs'] += 1; out['stats']['switches'] += len(sched.switches); out['stats']['scheduling_points'] += sched.total; out['simtime'] += sched.now - 1e9
        for f in sched.fired: out['faults'][f[2]] = out['faults'].get(f[2], 0) + 1
        if sched.dead and not viol: viol.append({'kind': 'blocked', 'msg': sched.dead})
        if delayed[0]: out['sigs'].add(sha([s['models'], s['clients'], sched.switches, [f[:3] for f in sched.fired]]))
        if viol: out['violation'] = viol[0]; out['concrete'] = s
        return sched
    if plan is None: run(scn)
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}
        r = run(base, True); rng = rnd.Random(plan['seed']); n = len(scn['clients'])
        for j in range(plan['k']):
            if out['violation']: break
            s = dict(base)
            if n > 1:
                pre = {}
                for _ in range(rng.choice([1, 3, 10])):
                    for t, st in pick_points(rng, r.lines, 1): pre[(t, st)] = rng.choice([u for u in range(n) if u != t])
                s['preempt'] = [[a, b, c] for (a, b), c in sorted(pre.items())]
            if n == 1 or j % 2: s['faults'] = [[t, st, rng.choice(['interrupt', 'memory', 'runtime'])] for t, st in pick_points(rng, r.lines, rng.choice([1, 2]))]
            run(s)
        out['sample'] = dict(models=[m[1] if m[0] == 'fn' else m[1]['kind'] for m in scn['models']], clients=[[o[:3] for o in c[:6]] for c in scn['clients']])
    out['sigs'] = sorted(out['sigs'])
    return out
def nets_in(w, m):
    import oracle
    return oracle.size(m[2][0], w.dims)
def axes(scn): return [('clients', t) for t in range(len(scn['clients']))] + [(k,) for k in ('preempt', 'faults') if scn.get(k)]
