import random
from .common import *
COUNTS = {'quick': 100, 'thorough': 2200}
RULE = ('A case is a chain of two to four simulated processes. The first builds a network (EMLP, layers and blocks, MLP, and the ODE and Hamiltonian variants; objax, pytorch, flax or haiku), changes its parameters along a training history, saves them with the means of the framework, and is killed at a random point afterwards; '
        'each later process has other hash values, random states and earlier work (other networks, groups, queries, draws), builds the network again with the same arguments, loads the checkpoint, and must compute the same outputs; it may then train on and save again. '
        'Non-trivial: the outputs depend on the parameters (they change in the history); counted once per distinct (network arguments, framework, chain of processes).')
MEASURE = 'distinct (framework, network, chain of process histories)'
ASSUMPTIONS = ['checkpoints are complete files (writing them atomically is up to the user of the library)', 'outputs agree to 1e-3 of their scale or 100 times the rounding noise measured by perturbing the inputs']
REAL = REAL + ['objax, torch, flax, haiku, optax and their serialisation', 'checkpoint files in a scratch directory']
TIMEOUT = 300
def generate(rng, i, tier):
    import nets, gen
    fw = nets.FRAMEWORKS[(i // 4) % 4] # (i mod 4 is the hash seed class)
    spec = nets.random_group(rng)
    kinds = ('EMLP', 'EMLP', 'EMLP', 'Linear', 'Block', 'BiLinear', 'BiLinear', 'MLP') + (('EMLPode', 'EMLPH', 'MLPode', 'MLPH') if fw == 'objax' else ())
    cfg = nets.random_config(rng, spec, fw, kinds)
    procs = []
    for j in range(rng.choice([2, 2, 3, 4])):
        before = []
        for _ in range(rng.randint(0, 3)):
            s2 = nets.random_group(rng)
            before.append(rng.choice([['rand', rng.randint(1, 50)], ['group', s2], ['net', s2, nets.random_config(rng, s2, fw, ('Linear', 'BiLinear', 'Block', 'EMLP'))],
                                      ['net', spec, nets.random_config(rng, spec, fw, ('Linear', 'BiLinear', 'Block'))], ['basis', spec, ['prod', ['V', 0], ['dual', ['V', 0]]]], ['uniform', rng.randint(2, 20)]]))
        updates = [[rng.choice(['noise', 'noise', 'sgd', 'scale', 'reinit']), rng.choice([.01, .1, 1.]), rng.randrange(1 << 30)] for _ in range(rng.randint(0, 3))]
        procs.append(dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 30), before=before, updates=updates, save_at=rng.randint(0, len(updates)), rebuild=rng.random() < .3))
    return dict(specs=[spec], cfg=cfg, procs=procs, seed=rng.randrange(1 << 30))
def execute(scn):
    import numpy as np, nets, oracle, os, tempfile, shutil, zlib, core
    from world import World, Env, show, gname
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=1, processes=0, restored=0, updates=0, inert=0))
    cfg = scn['cfg']; fw = cfg['fw']
    tmp = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    desc = f'{fw} {cfg["kind"]}({show(cfg["rin"])} -> {show(cfg["rout"])}, {gname(scn["specs"][0])}' + (f', ch={cfg["ch"]}, {cfg["layers"]} layers)' if 'ch' in cfg else ')')
    rng = np.random.default_rng(scn['seed'])
    saved = None; moved = False
    def bad(kind, msg): out['violation'] = dict(kind=kind, msg=f'{desc}: {msg}'); return done()
    def done(): shutil.rmtree(tmp, ignore_errors=True); out['sigs'] = sorted(out['sigs']); return out
    try:
        for j, p in enumerate(scn['procs']):
            if saved is not None: out['faults']['crash and restart'] = out['faults'].get('crash and restart', 0) + 1
            w = World(scn['specs'], salt=p['salt'], npseed=p['npseed'], extra=nets.MODULES[fw]); out['stats']['processes'] += 1
            env = Env(w); act = f'earlier work of process {j}'
            try:
                import torch, objax; torch.manual_seed(p['npseed']); objax.random.DEFAULT_GENERATOR.seed(p['npseed'] % 2**31)
                for op in p['before']:
                    if op[0] == 'rand': np.random.rand(op[1]); torch.rand(op[1]); objax.random.normal((op[1],))
                    elif op[0] == 'uniform': w.mods['nn'].uniform_rep(op[1], env.group(0))
                    else:
                        from world import make_group
                        w2 = w; e2 = Env(w); e2.groups[0] = make_group(op[1], w.mods)
                        if op[0] == 'net':
                            dims = w.dims; w.dims = {0: oracle.group(op[1])[0]}
                            try: n2 = nets.Net(w, e2, op[2], p['npseed'] + 5); n2(np.ones((2, n2.nin)))
                            finally: w.dims = dims
                        elif op[0] == 'basis': w.dense(w.build(op[2], e2).equivariant_basis())
                act = f'building in process {j}'
                net = nets.Net(w, env, cfg, p['npseed'])
                if p['rebuild']: net = nets.Net(w, env, cfg, p['npseed'] + 1)
                x = np.random.default_rng(scn['seed']).standard_normal((3, net.nin)).astype(np.float32)
                if saved is not None:
                    act = f'loading in process {j}'
                    path, want, noise, names = saved
                    if p['salt'] % 2: net(x) # (a forward pass before loading)
                    net.load(path); got = net(x); out['stats']['restored'] += 1; out['evals'] += 1
                    shp = {k: v.shape for k, v in net.params().items()}
                    if shp != names: return bad('parameters', f'process {j} has parameters {shp}, the checkpoint {names}')
                    sc = np.abs(want).max(initial=0); err = np.abs(got - want).max(initial=0)
                    if got.shape != want.shape or not err <= 1e-3 * sc + 100 * noise + 1e-6: return bad('function', f'restored in process {j}, outputs differ by {err:.3g} (scale {sc:.3g}, noise {noise:.2g})')
                    if moved: out['sigs'].add(sha([scn['specs'], cfg, scn['procs'][:j + 1]]))
                    out['sample'] = dict(network=desc, processes=j + 1)
                first = net(x); act = f'training in process {j}'; state = None
                def save():
                    nonlocal saved
                    y = net(x); eps = np.random.default_rng(1)
                    noise = max(np.abs(net(x * (1 + 1e-6 * eps.standard_normal(x.shape).astype(np.float32))) - y).max(initial=0) for _ in range(3))
                    net.save(os.path.join(tmp, f'ck{j}')); saved = (os.path.join(tmp, f'ck{j}'), y, noise, {k: v.shape for k, v in net.params().items()})
                for u, (how, a, s) in enumerate(p['updates'] + [None] * 0):
                    if u == p['save_at']: save()
                    h = lambda k: zlib.crc32(k.encode())
                    if how == 'sgd' and cfg['kind'] not in ('EMLPH', 'MLPH'):
                        r2 = np.random.default_rng(s); state = net.train('sgd', a * .1, x, r2.standard_normal(net(x).shape).astype(np.float32), state)
                    elif how == 'scale': net.change(lambda k, v: v * np.float32(1 + a * .3))
                    elif how == 'reinit': net.change(lambda k, v: np.random.default_rng([s, h(k)]).standard_normal(v.shape).astype(np.float32) * .5)
                    else: net.change(lambda k, v: v + np.float32(a * .3) * np.random.default_rng([s, h(k)]).standard_normal(v.shape).astype(np.float32))
                    out['stats']['updates'] += 1
                if len(p['updates']) <= p['save_at']: save()
                if np.abs(net(x) - first).max(initial=0) > 1e-6: moved = True
                if not np.isfinite(saved[1]).all(): out['stats']['inert'] += 1; break
                core.kill_process()
            except Exception as e:
                import history, traceback
                return bad('error', f'{act} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}')
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return done()
def axes(scn): return [('procs',)] + [('procs', j, k) for j in range(len(scn['procs'])) for k in ('before', 'updates')]
def simplify(scn):
    import copy
    c = scn['cfg']
    if 'ch' in c:
        for l in range(1, c['layers']):
            if isinstance(c['ch'], int): d = copy.deepcopy(scn); d['cfg']['layers'] = l; yield d
        for ch in (3, 4, 6):
            if c['ch'] != ch: d = copy.deepcopy(scn); d['cfg']['ch'] = ch; yield d
    for k in ('rin', 'rout'):
        for e in smaller(c[k]):
            d = copy.deepcopy(scn); d['cfg'][k] = e; yield d
def valid(scn): return bool(scn['procs'])
