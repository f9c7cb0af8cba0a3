"""Client operations on groups and representations, run against /repo's code and compared with the oracle."""
import numpy as np, sys, traceback
import core, oracle, gen

class Violation(Exception):
    def __init__(self, kind, msg): super().__init__(msg); self.kind, self.msg = kind, msg

_user_classes = {}
def make_group(spec, mods):
    """builds the group of a spec with the library"""
    G = mods['groups']
    k, a = spec[0], spec[1:]
    if k == 'Embed': return G.Embed(make_group(a[0], mods), a[1], slice(*a[2]))
    if k == 'prod': return make_group(a[0], mods) * make_group(a[1], mods)
    if k == 'user':
        name, args, lie, dis = a
        def __init__(self, *args):
            lazy = any(isinstance(g[0], str) for g in lie + dis)
            if lazy:
                ls = [lazy_operator(g, mods) for g in lie]; hs = [lazy_operator(g, mods) for g in dis]
                z = np.zeros((0,) + tuple((ls + hs)[0].shape))
                self.lie_algebra, self.discrete_generators = ls or z, hs or z
            else:
                self.lie_algebra = np.array(lie, float) if lie else np.zeros((0,) + np.shape(dis[0]))
                self.discrete_generators = np.array(dis, float) if dis else np.zeros((0,) + np.shape(lie[0]))
            G.Group.__init__(self, *args)
        cls = type(G.Group)(name, (G.Group,), {'__init__': __init__})
        return cls(*args)
    return getattr(G, k)(*a)

def lazy_operator(m, mods):
    L = mods['lo']; k = m[0]; f = lambda x: lazy_operator(x, mods)
    if not isinstance(k, str): return np.array(m, np.float32)
    if k == 'shift': return L.LazyShift(m[1], m[2])
    if k == 'perm': return L.LazyPerm(np.array(m[1]))
    if k == 'mat': return L.lazify(np.array(m[1], np.float32))
    if k == 'scale': return m[1] * f(m[2])
    if k == 'kron': return L.LazyKron(list(map(f, m[1:])))
    if k == 'kronsum': return L.LazyKronsum(list(map(f, m[1:])))
    if k == 'add': return f(m[1]) + f(m[2])
    if k == 'mulop': return f(m[1]) @ f(m[2])
    if k == 'id': return L.I(m[1])
    raise KeyError(k)

def custom_reps(mods):
    R = mods['rep']; import jax.numpy as jnp
    class _C(R.Rep):
        is_permutation = False
        def __init__(self, G=None): self.G = G
        def __call__(self, G): return type(self)(G)
        def _m(self, M):
            if isinstance(M, dict): M = M[self.G]
            return M @ jnp.eye(M.shape[0])
        def drho(self, A): return super().drho(self._m(A)) # (the inherited one is for a plain matrix)
    class PseudoScalar(_C):
        def __str__(self): return 'PS'
        def rho(self, M): return jnp.linalg.det(self._m(M)).reshape(1, 1)
    class Adjoint(_C):
        def __str__(self): return 'Ad'
        def rho(self, M):
            M = self._m(M); return jnp.kron(M, jnp.linalg.inv(M).T)
        def drho(self, A):
            A = self._m(A); I = jnp.eye(A.shape[0]); return jnp.kron(A, I) - jnp.kron(I, A.T)
    class Twice(_C):
        def __str__(self): return 'Tw'
        def rho(self, M):
            M = self._m(M); Z = 0 * M
            return jnp.concatenate([jnp.concatenate([M, Z], 1), jnp.concatenate([Z, M], 1)], 0)
    return {'det': PseudoScalar, 'ad': Adjoint, 'twice': Twice}

class World:
    def __init__(self, specs, **proc):
        self.specs = {i: s for i, s in enumerate(specs)}
        self.dims = {i: oracle.group(s)[0] for i, s in self.specs.items()}
        core.start_process(**proc)
        m = sys.modules
        self.mods = dict(groups=m['emlp.groups'], rep=m['emlp.reps.representation'], reps=m['emlp.reps'], psr=m['emlp.reps.product_sum_reps'], lo=m['emlp.reps.linear_operators'], lob=m['emlp.reps.linear_operator_base'], nn=m['emlp.nn.objax'])
        self.custom = custom_reps(self.mods)
        self.skipped = 0; self.checked = 0; self.probes = {}
    def probe(self, name): self.probes[name] = self.probes.get(name, 0) + 1

    # ---- building
    def build(self, e, env):
        """env: groups[index], vars[name] of one client (falling back to those of the setup)"""
        k = e[0]; R = self.mods['reps']; B = lambda x: self.build(x, env)
        if k == 'S': return R.Scalar
        if k == 'S1': return R.Scalar(env.group(e[1]))
        if k == 'V': return R.V(env.group(e[1]))
        if k == 'Vf': return R.V
        if k == 'int': return e[1]
        if k in ('ref', 'aref'): return env.vars[e[1]]
        if k == 'dual': return B(e[1]).T
        if k == 'sum':
            o = B(e[1])
            for x in e[2:]: o = o + B(x)
            return o
        if k == 'mul': return e[1] * B(e[2])
        if k == 'prod':
            o = B(e[1])
            for x in e[2:]: o = o * B(x)
            return o
        if k == 'pow': return B(e[1]) ** e[2]
        if k == 'lin': return B(e[1]) >> B(e[2])
        if k == 'nil': return B(e[1]) << B(e[2])
        if k == 'T': return R.T(e[1], e[2], env.group(e[3]))
        if k == 'def': return B(e[1])(env.group(e[2]))
        if k == 'custom': return self.custom[e[1]](env.group(e[2]))
        raise KeyError(k)

    def dense(self, x):
        """the matrix of an array or lazy operator"""
        LO = self.mods['lob'].LinearOperator
        if isinstance(x, LO):
            if x.shape[-1] == 0: return np.zeros(x.shape)
            x = x.to_dense()
        return np.asarray(x)

    # ---- comparing
    def close(self, got, want, what, tol=2e-3):
        got = np.asarray(got)
        if got.shape != want.shape: raise Violation('shape', f'{what}: shape {got.shape}, should be {want.shape}')
        if got.size == 0: return
        s = max(1.0, float(np.abs(want).max()))
        d = np.abs(got - want); d = np.where(np.isfinite(d), d, np.inf)
        if d.max() > tol * s: raise Violation('wrong', f'{what}: off by {d.max():.3g} (scale {s:.3g})')
        self.checked += 1

    def check_query(self, kind, val, ne, what, elem=None):
        """val: a dense result of the library; ne: normal form of the expression"""
        if kind in ('basis', 'proj', 'projvec'):
            try: r, P = oracle.fixed_space(ne, self.specs)
            except oracle.IllConditioned: self.skipped += 1; return
            n = oracle.size(ne, self.dims)
            if kind == 'basis':
                Q = np.asarray(val)
                if Q.ndim != 2 or Q.shape[0] != n: raise Violation('shape', f'{what}: basis of shape {Q.shape} for dimension {n}')
                if not np.isfinite(Q).all(): raise Violation('wrong', f'{what}: basis has nans')
                if Q.shape[1] != r: raise Violation('rank', f'{what}: basis has {Q.shape[1]} vectors, invariant space has dimension {r}')
                Q = Q.astype(complex)
                self.close(Q.conj().T @ Q, np.eye(r), what + ': orthonormality')
                self.close(Q @ Q.conj().T, P, what + ': span')
            elif kind == 'proj': self.close(val, P, what)
            else:
                v = np.cos(1 + np.arange(n)); self.close(np.asarray(val).reshape(-1), P @ v, what)
        elif kind == 'rho': self.close(val, oracle.rho(ne, elem), what)
        elif kind == 'drho': self.close(val, oracle.drho(ne, elem), what)
        elif kind == 'size': self.close(np.array(val), np.array(oracle.size(ne, self.dims)), what)
        else: raise KeyError(kind)

    def element_for(self, ne, seed, algebra=False):
        rng = np.random.default_rng(seed)
        f = oracle.algebra if algebra else oracle.element
        out = {}
        for g in oracle.groups_of(ne):
            m = f(self.specs[g], rng)
            out[g] = m.astype(np.complex64 if np.iscomplexobj(m) else np.float32).astype(m.dtype)
        return out

    def ask(self, kind, rep, ne, env, elem=None):
        """The query as a client makes it. Returns dense arrays."""
        import jax.numpy as jnp
        if kind == 'size': return rep.size()
        if kind == 'basis': return self.dense(rep.equivariant_basis())
        n = oracle.size(ne, self.dims)
        if kind == 'proj':
            P = rep.equivariant_projector(); return np.asarray(P @ jnp.eye(n))
        if kind == 'projvec':
            P = rep.equivariant_projector(); return np.asarray(P @ jnp.asarray(np.cos(1 + np.arange(n)), dtype=jnp.float32))
        if kind in ('rho', 'drho'):
            gs = list(elem)
            f = getattr(rep, kind)
            as32 = lambda m: jnp.asarray(m, dtype=jnp.complex64 if np.iscomplexobj(m) else jnp.float32)
            if len(gs) == 1 and env.plain: arg = as32(elem[gs[0]])
            elif not gs: arg = jnp.eye(2)
            else: arg = {env.group(g): as32(elem[g]) for g in gs}
            return self.dense(f(arg))
        raise KeyError(kind)

class Env:
    """What a client holds: group objects and named representations"""
    def __init__(self, world, parent=None):
        self.world, self.parent = world, parent
        self.groups = {}; self.vars = dict(parent.vars) if parent else {}; self.norms = dict(parent.norms) if parent else {}; self.abstract = set(parent.abstract) if parent else set()
        self.plain = True
    def group(self, i):
        if i in self.groups: return self.groups[i]
        if self.parent is not None and i in self.parent.groups: return self.parent.groups[i]
        g = self.groups[i] = make_group(self.world.specs[i], self.world.mods)
        return g
    def fresh_group(self, i):
        self.groups.pop(i, None)
        if self.parent: self.groups[i] = make_group(self.world.specs[i], self.world.mods)

def do_op(world, env, op, seed):
    """One client operation; returns a thunk that checks its result (run outside of the schedule) or None"""
    k = op[0]
    if k == 'R':     # name a representation
        ne = gen.norm(op[2], env.norms)
        env.vars[op[1]] = world.build(op[2], env); env.norms[op[1]] = ne
        return None
    if k == 'RA':    # name a representation that no group is bound to yet
        env.vars[op[1]] = world.build(op[2], env); env.norms[op[1]] = op[2]; env.abstract.add(op[1])
        return None
    if k == 'Q':     # query kind expr
        ne = gen.norm(op[2], env.norms)
        elem = world.element_for(ne, seed, op[1] == 'drho') if op[1] in ('rho', 'drho') else None
        rep = world.build(op[2], env)
        if isinstance(rep, int): return None
        val = world.ask(op[1], rep, ne, env, elem)
        return lambda: world.check_query(op[1], val, ne, f'{op[1]} of {show(op[2], world)}', elem)
    if k == 'L':     # build an equivariant linear layer and read off its matrix and bias
        import jax.numpy as jnp
        ni, no = gen.norm(op[1], env.norms), gen.norm(op[2], env.norms)
        a, b = world.build(op[1], env), world.build(op[2], env)
        lin = world.mods['nn'].Linear(a, b)
        n = oracle.size(ni, world.dims)
        b0 = np.asarray(lin(jnp.zeros((1, n))))[0]; W = (np.asarray(lin(jnp.eye(n))) - b0).T
        def chk():
            for v, ne, w in ((W.reshape(-1), ['prod', no, ['dual', ni]], 'weight'), (b0, no, 'bias')):
                try: r, P = oracle.fixed_space(ne, world.specs)
                except oracle.IllConditioned: world.skipped += 1; continue
                world.close(P @ v, v, f'{w} of Linear({show(op[1], world)}, {show(op[2], world)}) projected')
        return chk
    if k == 'BL':    # the bilinear layer from a representation to itself
        import jax.numpy as jnp
        ne = gen.norm(op[1], env.norms)
        rep = world.build(op[1], env)
        wd, f = world.mods['reps'].bilinear_weights(rep, rep)
        n = oracle.size(ne, world.dims); elem = world.element_for(ne, seed)
        R = oracle.rho(ne, elem); rng = np.random.default_rng(seed)
        x = rng.standard_normal(n) * .5; p = jnp.asarray(rng.standard_normal(wd), dtype=jnp.float32)
        xs = jnp.asarray(np.stack([x, R @ x]), dtype=jnp.float32)
        ys = np.einsum('bij,bj->bi', np.asarray(f(p, xs)), np.asarray(xs))
        def chk():
            want = R @ ys[0]
            world.close(ys[1], want, f'bilinear layer of {show(op[1], world)} at a transformed input', tol=2e-3 * max(1, np.abs(R).max()))
            # deterministic given the parameters
            wd2, f2 = world.mods['reps'].bilinear_weights(rep, rep)
            if wd2 != wd: raise Violation('wrong', f'bilinear layer of {show(op[1], world)}: {wd} weights, rebuilt with {wd2}')
            world.close(np.asarray(f2(p, xs)), np.asarray(f(p, xs), float), f'rebuilt bilinear layer of {show(op[1], world)}')
        return chk
    if k == 'U':     # use representations in a way that returns nothing to check
        reps = [world.build(x, env) for x in op[2:]]
        if not any(isinstance(r, int) for r in reps): use(world, env, op[1], reps)
        return None
    if k == 'N':     # build a network and evaluate it
        import jax.numpy as jnp
        a, b = world.build(op[1], env), world.build(op[2], env); G = env.group(op[3])
        ch = op[4] if not isinstance(op[4], list) or not isinstance(op[4][0], str) else world.build(op[4], env)
        net = world.mods['nn'].EMLP(a, b, G, ch=ch, num_layers=op[5])
        net(jnp.ones((2, a(G).size())))
        return None
    if k == 'regroup': env.fresh_group(op[1]); return None
    if k == 'del': env.vars.pop(op[1], None); env.norms.pop(op[1], None); return None
    if k == 'bindscalar': world.mods['reps'].Scalar(env.group(op[1])); return None
    raise KeyError(k)

def use(world, env, how, reps):
    a, b = reps[0], reps[-1]
    if how == 'compare': a == b, b == a, a != b, a == None, a == 3
    elif how == 'order':
        try: sorted(reps), a < b, b < a
        except AssertionError: pass # (those that no other criterion tells apart are ordered by hash)
    elif how == 'hash':
        for r in reps:
            try: {r: 1}
            except (AssertionError, TypeError): pass # (only canonical representations can be hashed)
    elif how == 'canonicalize': [r.canonicalize() for r in reps]
    elif how == 'dual': a.T, a.T.T, (b >> a).T
    elif how == 'combine': a + b, b + a, a * b, 2 * a, a ** 2, a >> b, sum([a, b]), a << b, 1 + a, b * 3
    elif how == 'instantiate': [r(g) for r in reps for g in env.groups.values() if type(r).__name__ in ('Base', 'ScalarRep', 'DeferredSumRep', 'DeferredProductRep')]
    elif how == 'print': [(str(r), repr(r)) for r in reps]
    elif how == 'gated':
        nn = world.mods['nn']
        for r in reps:
            if hasattr(r, 'reps') and hasattr(r, 'as_dict') and all(hasattr(x, 'G') for x in r.reps): nn.gated(r); nn.GatedNonlinearity(r.canonicalize()[0])(np.ones((2, nn.gated(r).size())))
    elif how == 'constraints': [np.asarray(r.constraint_matrix().to_dense()) for r in reps if getattr(r, 'G', None) is not None and r.size() < 30]
    elif how == 'parts':
        for r in reps:
            if hasattr(r, 'as_dict'): list(r), len(r), r.as_dict(np.ones((2, r.size())))
    else: raise KeyError(how)

def show(e, world=None):
    k = e[0]; s = lambda x: show(x, world)
    nm = lambda g: gname(world.specs[g]) if world else f'G{g}'
    if k == 'S': return 'Scalar'
    if k == 'S1': return f'Scalar({nm(e[1])})'
    if k == 'V': return f'V({nm(e[1])})'
    if k == 'Vf': return 'V'
    if k == 'int': return str(e[1])
    if k in ('ref', 'aref'): return e[1]
    if k == 'dual': return s(e[1]) + '.T'
    if k == 'sum': return '(' + '+'.join(map(s, e[1:])) + ')'
    if k == 'mul': return f'{e[1]}*{s(e[2])}'
    if k == 'prod': return '(' + '*'.join(map(s, e[1:])) + ')'
    if k == 'pow': return f'{s(e[1])}**{e[2]}'
    if k == 'lin': return f'({s(e[1])}>>{s(e[2])})'
    if k == 'nil': return f'({s(e[1])}<<{s(e[2])})'
    if k == 'T': return f'T({e[1]},{e[2]},{nm(e[3])})'
    if k == 'def': return f'({s(e[1])})({nm(e[2])})'
    if k == 'custom': return f'{e[1]}({nm(e[2])})'
def gname(s):
    if s[0] == 'Embed': return f'Embed({gname(s[1])},{s[2]},slice{tuple(s[3])})'
    if s[0] == 'prod': return f'({gname(s[1])}*{gname(s[2])})'
    if s[0] == 'user': return f'{s[1]}({",".join(map(repr, s[2]))})'
    return f'{s[0]}({",".join(map(str, s[1:]))})'
