"""Networks of the library in four frameworks behind one interface, for histories of training, saving and restoring."""
import os, json, pickle, zlib
import numpy as np
import gen, oracle
FRAMEWORKS = ['objax', 'pytorch', 'flax', 'haiku']
MODULES = {'objax': (), 'pytorch': ('emlp.nn.pytorch',), 'flax': ('emlp.nn.flax',), 'haiku': ('emlp.nn.haiku',)}

def abstract(rng, depth):
    """an input or output representation that is not bound to a group yet"""
    r = rng.random()
    if depth <= 0 or r < .3: return rng.choice([['Vf'], ['Vf'], ['S']])
    rec = lambda: abstract(rng, depth - 1)
    if r < .4: return ['dual', rec()]
    if r < .7: return ['sum', rec(), rec()]
    if r < .82: return ['mul', rng.randint(1, 3), rec()]
    return ['prod', rec(), rec()]
def sumrep(rng, dims, cap=12):
    """a sum not bound to a group yet, in any order"""
    for _ in range(50):
        xs = [rng.choice([['Vf'], ['S'], ['S'], ['dual', ['Vf']], ['prod', ['Vf'], ['Vf']], ['prod', ['Vf'], ['dual', ['Vf']]]]) for _ in range(rng.randint(2, 4))]
        e = ['sum'] + [['mul', rng.randint(2, 3), x] if rng.random() < .3 else x for x in xs]
        if oracle.size(gen.norm(e, {}, 0), dims) <= cap: return e
    return ['sum', ['Vf'], ['S']]
def random_group(rng, maxd=4):
    for _ in range(100):
        s = gen.group(rng, maxd)
        if oracle.group(s)[0] >= 2 and not oracle.is_complex(s): return s
    return ['SO', 3]
def random_config(rng, spec, fw, kinds=('EMLP', 'EMLP', 'EMLP', 'Linear', 'Block', 'BiLinear')):
    dims = {0: oracle.group(spec)[0]}; d = dims[0]
    kind = rng.choice(kinds)
    def io(cap):
        for _ in range(50):
            e = abstract(rng, rng.randint(0, 2)); n = gen.norm(e, {}, 0)
            if oracle.size(n, dims) <= cap: return e
        return ['Vf']
    c = dict(fw=fw, kind=kind)
    if kind in ('EMLP', 'EMLPode', 'EMLPH', 'MLP', 'MLPode', 'MLPH'):
        c['rin'] = io(12)
        if kind in ('EMLPode', 'MLPode'): c['rout'] = c['rin']
        elif kind in ('EMLPH', 'MLPH'): c['rout'] = ['S']
        else: c['rout'] = io(10)
        c['layers'] = rng.choice([1, 1, 2, 3])
        c['ch'] = rng.choice([rng.randint(3, 14), rng.randint(3, 9), [rng.randint(3, 9) for _ in range(rng.randint(1, 2))], sumrep(rng, dims), [sumrep(rng, dims, 8), rng.randint(3, 8)]])
        if kind.startswith('MLP'): c['ch'] = rng.randint(3, 9)
        if not isinstance(c['ch'], int) and not isinstance(c['ch'][0], str): c['layers'] = len(c['ch'])
    else:
        bind = lambda e: ['def', e, 0]
        c['rin'] = bind(sumrep(rng, dims)) if kind == 'BiLinear' else bind(io(12))
        c['rout'] = bind(sumrep(rng, dims, 8)) if kind in ('BiLinear', 'Block') else bind(io(10))
    return c
def is_rep(c): return isinstance(c, list) and isinstance(c[0], str)
def norms(cfg):
    """normal forms of the input and output representations"""
    out = [gen.norm(cfg[k], {}, 0) for k in ('rin', 'rout')]
    if cfg['kind'] in ('EMLPH', 'MLPH'): out[1] = ['S']
    return out

class Net:
    """a network of the library in the process of `world`; parameters are a dict of arrays"""
    def __init__(self, world, env, cfg, seed):
        import sys
        self.cfg, self.fw = cfg, cfg['fw']
        nn = self.nn = sys.modules['emlp.nn.' + self.fw]
        self.nin, self.nout = [oracle.size(e, world.dims) for e in norms(cfg)]
        B = lambda e: world.build(e, env); G = env.group(0); k = cfg['kind']
        self.seed(seed)
        if 'ch' in cfg:
            ch = cfg['ch']
            ch = B(ch) if is_rep(ch) else ch if isinstance(ch, int) else [B(c) if is_rep(c) else c for c in ch]
            m = getattr(nn, k)(B(cfg['rin']), B(cfg['rout']), G, ch=ch, num_layers=cfg['layers'])
        else: m = getattr(nn, {'Linear': 'Linear', 'BiLinear': 'BiLinear', 'Block': 'EMLPBlock'}[k])(B(cfg['rin']), B(cfg['rout']))
        self.m = m
        self.init(seed)
    def seed(self, s):
        if self.fw == 'objax':
            import objax; objax.random.DEFAULT_GENERATOR.seed(s % 2**31)
        elif self.fw == 'pytorch':
            import torch; torch.manual_seed(s)
    def init(self, s):
        import jax, jax.numpy as jnp
        x = jnp.zeros((1, self.nin)) + .1
        if self.fw == 'flax': self.p = self.m.init(jax.random.PRNGKey(s % 2**31), x)
        if self.fw == 'haiku':
            import haiku as hk
            self.t = hk.transform(self.m); self.p = self.t.init(jax.random.PRNGKey(s % 2**31), x)
    def extra(self): return (0.,) if self.cfg['kind'] in ('EMLPode', 'MLPode') else ()
    def __call__(self, x):
        import jax.numpy as jnp
        x = np.asarray(x, np.float32)
        if self.cfg['kind'] in ('EMLPH', 'MLPH'): return np.stack([np.asarray(self.m(jnp.asarray(v[None]))).reshape(1) for v in x])
        if self.fw == 'objax': return np.asarray(self.m(jnp.asarray(x), *self.extra()))
        if self.fw == 'pytorch':
            import torch
            with torch.no_grad(): return self.m(torch.from_numpy(x)).numpy()
        if self.fw == 'flax': return np.asarray(self.m.apply(self.p, jnp.asarray(x)))
        return np.asarray(self.t.apply(self.p, None, jnp.asarray(x)))
    # -- parameters
    def params(self):
        if self.fw == 'objax': return {k: np.array(v.value) for k, v in self.m.vars().items() if hasattr(v, 'value')}
        if self.fw == 'pytorch': return {k: v.detach().numpy().copy() for k, v in self.m.state_dict().items()}
        import jax
        return {jax.tree_util.keystr(k): np.array(v) for k, v in jax.tree_util.tree_flatten_with_path(self.p)[0]}
    def change(self, f):
        """f(name, array) -> array, for every parameter"""
        import jax, jax.numpy as jnp
        if self.fw == 'objax':
            for k, v in self.m.vars().items(): v.assign(jnp.asarray(f(k, np.array(v.value))))
        elif self.fw == 'pytorch':
            import torch
            with torch.no_grad():
                for k, v in self.m.named_parameters(): v.copy_(torch.from_numpy(np.asarray(f(k, v.detach().numpy().copy()))))
        else: self.p = jax.tree_util.tree_map_with_path(lambda k, v: jnp.asarray(f(jax.tree_util.keystr(k), np.array(v))), self.p)
    # -- checkpoints, with what each framework provides for them
    def save(self, path):
        if self.fw == 'objax':
            import objax; objax.io.save_var_collection(path + '.npz', self.m.vars())
        elif self.fw == 'pytorch':
            import torch; torch.save(self.m.state_dict(), path)
        elif self.fw == 'flax':
            from flax import serialization
            open(path, 'wb').write(serialization.to_bytes(self.p))
        else: pickle.dump(self.params_tree(), open(path, 'wb'))
    def params_tree(self):
        import jax
        return jax.tree_util.tree_map(np.array, dict(self.p))
    def load(self, path):
        if self.fw == 'objax':
            import objax; objax.io.load_var_collection(path + '.npz', self.m.vars())
        elif self.fw == 'pytorch':
            import torch; self.m.load_state_dict(torch.load(path))
        elif self.fw == 'flax':
            from flax import serialization
            self.p = serialization.from_bytes(self.p, open(path, 'rb').read())
        else:
            p = pickle.load(open(path, 'rb'))
            import jax, jax.numpy as jnp
            a, b = jax.tree_util.tree_structure(p), jax.tree_util.tree_structure(self.params_tree())
            if a != b: raise ValueError(f'parameters {a} do not fit the network {b}')
            for (k, x), (_, y) in zip(jax.tree_util.tree_flatten_with_path(p)[0], jax.tree_util.tree_flatten_with_path(self.params_tree())[0]):
                if x.shape != y.shape: raise ValueError(f'parameter {jax.tree_util.keystr(k)} of shape {x.shape} does not fit the network {y.shape}')
            self.p = jax.tree_util.tree_map(jnp.asarray, p)
    # -- training
    def train(self, how, lr, x, y, state=None):
        """one step of an optimiser on the squared error; returns the optimiser state"""
        import jax, jax.numpy as jnp
        if self.fw == 'objax':
            import objax
            vs = self.m.vars()
            if state is None:
                loss = (lambda x, y: ((self.m(x, *self.extra()) - y) ** 2).mean())
                state = (objax.GradValues(loss, vs), (objax.optimizer.Adam if how == 'adam' else objax.optimizer.SGD)(vs))
            g, v = state[0](jnp.asarray(x), jnp.asarray(y)); state[1](lr, g)
        elif self.fw == 'pytorch':
            import torch
            if state is None: state = (torch.optim.Adam if how == 'adam' else torch.optim.SGD)(self.m.parameters(), lr=lr)
            state.zero_grad(); ((self.m(torch.from_numpy(x)) - torch.from_numpy(y)) ** 2).mean().backward(); state.step()
        else:
            import optax
            if state is None:
                opt = (optax.adam if how == 'adam' else optax.sgd)(lr); state = [opt, opt.init(self.p)]
            f = (lambda p, x: self.m.apply(p, x)) if self.fw == 'flax' else (lambda p, x: self.t.apply(p, None, x))
            g = jax.grad(lambda p: ((f(p, jnp.asarray(x)) - jnp.asarray(y)) ** 2).mean())(self.p)
            u, state[1] = state[0].update(g, state[1], self.p); self.p = optax.apply_updates(self.p, u)
        return state
