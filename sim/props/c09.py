import random
from .common import *
COUNTS = {'quick': 120, 'thorough': 2600}
RULE = ('A case is a network or layer (objax, pytorch, flax or haiku; random group, input, output and hidden representations) in a simulated process and a training history of 3 to 9 steps: gradient steps (SGD, Adam, any learning rate), random, scaled, zeroed or replaced parameters, '
        'steps interrupted at a random executed line by an interrupt or allocation failure, other clients using other groups and networks, evaluation, and restarts from a checkpoint. At initialisation and after every step, outputs at inputs transformed by reference group elements must be the transformed outputs. '
        'Non-trivial: the output depends on the input and the group element acts on the input (some entry changes); counted once per distinct (network, history prefix).')
MEASURE = 'distinct (network, history prefix) at which equivariance was decided'
ASSUMPTIONS = ['agreement to 3e-3 of the scale of the outputs or 300 times the rounding noise measured by perturbing the inputs; states where that noise exceeds a tenth of the scale (for example after huge learning rates) are counted as undecided']
REAL = REAL + ['objax, torch, flax, haiku, optax']
TIMEOUT = 300
def generate(rng, i, tier):
    import nets
    fw = nets.FRAMEWORKS[(i // 4) % 4]
    spec = nets.random_group(rng)
    cfg = nets.random_config(rng, spec, fw, ('EMLP', 'EMLP', 'EMLP', 'Linear', 'Block', 'Block', 'BiLinear') + (('EMLPode', 'EMLPH') if fw == 'objax' else ()))
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random(); s = rng.randrange(1 << 30)
        if r < .3: ops.append(['train', rng.choice(['sgd', 'adam']), rng.choice([1e-3, 1e-2, .1, 1.]), s])
        elif r < .5: ops.append(['change', rng.choice(['noise', 'scale', 'zero', 'reinit', 'one']), rng.choice([.01, .3, 3.]), s])
        elif r < .75: ops.append(['fault', rng.choice(['interrupt', 'memory', 'runtime']), rng.random(), s])
        elif r < .85:
            s2 = nets.random_group(rng)
            ops.append(['other', s2, nets.random_config(rng, s2, fw, ('Linear', 'BiLinear', 'Block'))])
        elif r < .93: ops.append(['eval', rng.choice([1, 4]), 0, s])
        elif not any(o[0] == 'restart' for o in ops): ops.append(['restart', rng.randrange(1 << 20), rng.randrange(1 << 20), s])
    return dict(specs=[spec], cfg=cfg, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=[ops], seed=rng.randrange(1 << 30))
def execute(scn):
    import numpy as np, nets, oracle, os, tempfile, shutil, zlib, core, history
    from world import World, Env, show, gname, make_group
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=1, checks=0, undecided=0, trained=0, survived_faults=0))
    cfg = scn['cfg']; fw = cfg['fw']; spec = scn['specs'][0]
    desc = f'{fw} {cfg["kind"]}({show(cfg["rin"])} -> {show(cfg["rout"])}, {gname(spec)}' + (f', ch={cfg["ch"]}, {cfg["layers"]} layers)' if 'ch' in cfg else ')')
    ni, no = nets.norms(cfg); rng = np.random.default_rng(scn['seed'])
    tmp = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    def bad(kind, msg): out['violation'] = dict(kind=kind, msg=f'{desc}: {msg}'); return done()
    def done(): shutil.rmtree(tmp, ignore_errors=True); out['sigs'] = sorted(out['sigs']); return out
    def check(net, when, k):
        x = rng.standard_normal((2, net.nin)).astype(np.float32) * rng.choice([.3, 1., 2.])
        g = oracle.element(spec, rng, scale=.4); d = len(g)
        Ri, Ro = (oracle.rho(e, {0: g}) for e in (ni, no))
        gx = (x @ Ri.T).astype(np.float32)
        y, z = net(x), net(gx)
        if y.shape != (2, net.nout): return f'outputs of shape {y.shape}'
        want = y @ Ro.T
        pert = lambda v: v * (1 + 1e-6 * rng.standard_normal(v.shape).astype(np.float32))
        noise = max(max(np.abs(net(pert(x)) - y).max(initial=0) * np.abs(Ro).sum(1).max(initial=1), np.abs(net(pert(gx)) - z).max(initial=0)) for _ in range(3))
        sc = max(np.abs(want).max(initial=0), np.abs(z).max(initial=0), np.abs(y).max(initial=0))
        if not np.isfinite(sc) or not np.isfinite(noise) or noise > .1 * sc + 1e-9 and sc > 1e-5: out['stats']['undecided'] += 1; return None
        out['stats']['checks'] += 1; out['evals'] += 1
        err = np.abs(z - want).max(initial=0)
        if np.abs(gx - x).max(initial=0) > 1e-3 and np.abs(y[0] - y[1]).max(initial=0) > 1e-6: out['sigs'].add(sha([spec, cfg, scn['clients'][0][:k]]))
        if not err <= 3e-3 * sc * max(1, np.abs(g).max()) + 300 * noise + 1e-6: return f'f(gx) differs from g f(x) by {err:.3g} (scale {sc:.3g}, noise {noise:.2g})'
        return None
    h = lambda k: zlib.crc32(k.encode())
    try:
        p = dict(scn['proc']); w = World(scn['specs'], extra=nets.MODULES[fw], **p); env = Env(w); act = 'building'; state = {}
        try:
            import torch; torch.manual_seed(p['npseed'])
            net = nets.Net(w, env, cfg, scn['seed'])
            m = check(net, 'at initialisation', 0)
            if m: return bad('equivariance', f'at initialisation {m}')
            for k, op in enumerate(scn['clients'][0]):
                act = f'step {k} ({op[0]} {op[1] if isinstance(op[1], str) else ""})'
                r2 = np.random.default_rng(op[3] if len(op) > 3 else 0)
                def batch():
                    X = r2.standard_normal((4, net.nin)).astype(np.float32); return X, r2.standard_normal(np.shape(net(X))).astype(np.float32)
                ham = cfg['kind'] == 'EMLPH'
                if op[0] == 'train' and not ham:
                    key = (op[1], op[2] if fw != 'objax' else 0); X, Y = batch()
                    state[key] = net.train(op[1], op[2], X, Y, state.get(key)); out['stats']['trained'] += 1
                elif op[0] == 'change' or op[0] == 'train':
                    a = np.float32(op[2]); how = op[1]; one = sorted(net.params())[r2.integers(len(net.params()))]
                    f = {'noise': lambda k, v: v + a * np.random.default_rng([op[3], h(k)]).standard_normal(v.shape).astype(np.float32), 'scale': lambda k, v: v * (1 + a), 'zero': lambda k, v: v * 0,
                         'reinit': lambda k, v: np.random.default_rng([op[3], h(k)]).standard_normal(v.shape).astype(np.float32), 'one': lambda k, v: v * 0 + a if k == one else v}
                    net.change(f.get(how, f['noise']))
                elif op[0] == 'fault':
                    X, Y = batch(); n = int(10 ** (1 + 2.5 * op[2]))
                    def step(c):
                        if ham: net(X)
                        else: net.train('sgd', .05, X, Y, None)
                    s = core.Sched(faults=[(0, n, op[1])], anywhere=True); (c,) = s.run([step])
                    if s.fired:
                        out['faults'][op[1]] = out['faults'].get(op[1], 0) + 1; out['stats']['survived_faults'] += 1
                        if fw == 'pytorch':
                            for q in net.m.parameters(): q.grad = None
                    elif c.exc is not None: raise c.exc
                    out['simtime'] += s.now - 1e9
                elif op[0] == 'other':
                    e2 = Env(w); e2.groups[0] = make_group(op[1], w.mods); dims = w.dims; w.dims = {0: oracle.group(op[1])[0]}
                    try: n2 = nets.Net(w, e2, op[2], 5); n2(np.ones((2, n2.nin)))
                    finally: w.dims = dims
                elif op[0] == 'eval': net(r2.standard_normal((op[1], net.nin)))
                elif op[0] == 'restart':
                    net.save(os.path.join(tmp, 'ck')); core.kill_process(); out['faults']['crash and restart'] = out['faults'].get('crash and restart', 0) + 1
                    w = World(scn['specs'], extra=nets.MODULES[fw], salt=op[1], npseed=op[2]); env = Env(w); state = {}
                    net = nets.Net(w, env, cfg, op[2]); net.load(os.path.join(tmp, 'ck'))
                m = check(net, act, k + 1)
                if m: return bad('equivariance', f'after {act} {m}')
            out['sample'] = dict(network=desc, history=[o[:2] if o[0] != 'other' else o[:1] for o in scn['clients'][0]])
        except Exception as e:
            import traceback
            return bad('error', f'{act} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}')
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return done()
def axes(scn): return [('clients', 0)]
def simplify(scn):
    from .c08 import simplify
    return simplify(scn)
