import random
from .common import *
COUNTS = {'quick': 90, 'thorough': 2200}
RULE = ('A case is one simulated process in which 1 to 3 interleaved clients build, combine, compare, order, hash, print, instantiate, solve and use representations that they share, and build layers and networks from them. '
        'After every operation, also while other clients are in the middle of one, every object that anybody holds (named representations, groups, and the module level Scalar, V, Vector) is compared with what it was when first seen: '
        'group, size, names, permutation flag, hash, matrices of a fixed group element and algebra element, ordering permutation, and equality with the other objects; equal objects must have equal hashes and matrices. '
        'Non-trivial: at least one object was looked at again after an operation that used it; counted once per distinct (history, switches).')
MEASURE = 'distinct (operations, switches that took place)'
ASSUMPTIONS = ['objects are observed through G, size, str, repr, is_permutation, concrete, hash, ==, perm, rho and drho (groups through their generators, flags, repr and hash)']
TIMEOUT = 240
HOWS = ['compare', 'order', 'hash', 'canonicalize', 'dual', 'combine', 'instantiate', 'print', 'gated', 'constraints', 'parts']
def generate(rng, i, tier):
    import history, gen, oracle
    specs = history.random_specs(rng, rng.randint(1, 3))
    dims = {k: oracle.group(s)[0] for k, s in enumerate(specs)}
    custom = ['complex'] + [k for k, s in enumerate(specs) if oracle.is_complex(s)]
    n = rng.choice([1, 1, 2, 3]); pool = []
    setup = [op for op in history.random_ops(rng, specs, 8, cap=24, maxg=2, pool=pool) if op[0] == 'R'][:4]
    names = [op[1] for op in setup]
    if rng.random() < .3: # an object with nothing computed from it yet
        names.append('rc'); setup.insert(0, ['R', 'rc', rng.choice([['custom', 'ad' if dims[0] * dims[0] <= 24 else 'det', 0], ['V', 0], ['T', 1, 1, 0] if dims[0] < 5 else ['V', 0]])])
    anames = []
    for a in range(rng.choice([0, 1, 2, 3])):
        for _ in range(20):
            e = abstract(rng, anames)
            if has_v(gen.norm(e, {op[1]: op[2] for op in setup if op[0] == 'RA'}, 0)): break
        else: continue
        setup.append(['RA', f'A{a}', e]); anames.append(f'A{a}')
    araw = {op[1]: op[2] for op in setup if op[0] == 'RA'}
    clients = []
    for t in range(n):
        ops = [op for op in history.random_ops(rng, specs, rng.randint(2, 4), depth=2, cap=rng.choice([12, 30]), maxg=2, layers=.15, pool=pool, weights=(5, 2, 1, 2, 1, 2))]
        own = [op[1] for op in ops if op[0] == 'R']
        k = rng.randint(2, 5)
        def operand():
            x = rng.random()
            if names and x < .55: return ['ref', rng.choice(names)]
            if x < .7: return ['S']
            return history.fresh_expr(rng, specs, dims, rng.randint(0, 1), 12, custom, 1)
        for _ in range(k): ops.insert(rng.randint(0, len(ops)), ['U', rng.choice(HOWS)] + [operand() for _ in range(rng.randint(1, 3))])
        if rng.random() < .25:
            g = rng.randrange(len(specs))
            if not oracle.is_complex(specs[g]) and 2 <= dims[g] <= 4:
                io = [rng.choice([['S'], ['V', g], ['Vf'], ['sum', ['Vf'], ['S']], ['sum', ['V', g], ['S']]]) for _ in range(2)]
                ch = rng.choice([rng.randint(4, 9), [rng.randint(3, 7), rng.randint(3, 7)], ['sum', ['V', g], ['mul', 2, ['S']]]])
                ops.insert(rng.randint(0, len(ops)), ['N', io[0], io[1], g, ch, rng.randint(1, 2)])
        for _ in range(rng.randint(1, 4) if anames else 0):
            g = rng.randrange(len(specs)); ar = lambda: ['aref', rng.choice(anames)]
            x = rng.random()
            if x < .45: op = ['U', rng.choice(['combine', 'combine', 'dual', 'print', 'instantiate', 'compare', 'hash'])] + [rng.choice([ar(), ar(), ar(), ['Vf']]) for _ in range(rng.randint(1, 3))]
            elif x < .85 or oracle.is_complex(specs[g]) or not 2 <= dims[g] <= 4:
                e = ['def', abstract(rng, anames), g]
                if not 0 < oracle.size(gen.norm(e, araw), dims) <= 40: continue
                op = ['Q', rng.choice(['basis', 'proj', 'rho', 'size']), e]
            else:
                io = [ar(), rng.choice([ar(), ['S'], ['Vf']])]
                if any(oracle.size(gen.norm(['def', e, g], araw), dims) > 12 for e in io): continue
                op = ['N', io[0], io[1], g, rng.choice([rng.randint(4, 9), [rng.randint(3, 7), rng.randint(3, 7)]]), rng.randint(1, 2)]
            ops.insert(rng.randint(0, len(ops)), op)
        if rng.random() < .5: ops.insert(rng.randint(0, len(ops)), ['bindscalar', rng.randrange(len(specs))])
        clients.append(ops)
    return dict(specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), setup=setup, clients=clients, plain=True,
                plan=dict(k=(1 if n == 1 else 3) if tier == 'quick' else (1 if n == 1 else 8), seed=rng.randrange(1 << 30)))

def abstract(rng, names):
    """an expression in V and the named unbound representations"""
    at = lambda: ['aref', rng.choice(names)] if names and rng.random() < .7 else rng.choice([['Vf'], ['Vf'], ['S'], ['dual', ['Vf']]])
    x = rng.random()
    if x < .4: return ['prod', at(), at()]
    if x < .7: return ['sum', at(), at()]
    if x < .8: return ['mul', rng.randint(2, 3), at()]
    if x < .9: return ['dual', at()]
    return ['pow', at(), 2]
def has_v(ne): return ne[0] == 'V' or any(has_v(x) for x in ne[1:] if isinstance(x, list))

class Book:
    """what every object was when it was first seen"""
    def __init__(self): self.items = {}; self.pairs = {}; self.looks = 0; self.names = {}
    def start(self, world, env):
        import sys
        R = world.mods['reps']
        for n in ('Scalar', 'V', 'Vector'): self.add(world, n, getattr(R, n), ['S'] if n == 'Scalar' else None, {}, env)
    def add(self, world, name, obj, ne, elem, env, abstract=False):
        if id(obj) in self.items: return
        groups = {g: env.group(g) for g in elem}
        it = self.items[id(obj)] = dict(obj=obj, name=name, ne=ne, elem=elem, groups=groups, abstract=abstract, bind=[G for g, G in sorted(env.groups.items())] + [G for g, G in sorted(env.parent.groups.items()) if g not in env.groups] if abstract and env.parent else list(env.groups.values()) if abstract else [])
        it['snap'] = self.snap(world, it)
        for o in self.items.values():
            if o is not it: self.pair(world, o, it)
    def pair(self, world, a, b):
        x, y = self.eq(a['obj'], b['obj']), self.eq(b['obj'], a['obj'])
        self.pairs[id(a['obj']), id(b['obj'])] = (x, y)
        from world import Violation
        if x != y: raise Violation('equality', f'{a["name"]} == {b["name"]} is {x}, the other way round {y}')
        if x is not True: return
        ha, hb = a['snap'].get('hash'), b['snap'].get('hash')
        if ha != hb: raise Violation('equality', f'{a["name"]} == {b["name"]} but their hashes differ ({ha}, {hb})')
        if a['ne'] and b['ne'] and a['elem'].keys() == b['elem'].keys():
            import numpy as np
            for k in ('rho', 'drho'):
                p, q = a['snap'].get(k), b['snap'].get(k)
                # (the elements agree only for the same group)
                if isinstance(p, np.ndarray) and isinstance(q, np.ndarray) and (p.shape != q.shape or np.abs(p - q).max(initial=0) > 2e-3 * max(1, np.abs(p).max(initial=0))):
                    raise Violation('equality', f'{a["name"]} == {b["name"]} but they act by different matrices')
    @staticmethod
    def eq(a, b):
        try: return bool(a == b)
        except Exception as e: return f'raises {type(e).__name__}: {str(e)[:80]}'
    def snap(self, world, it):
        import numpy as np
        o = it['obj']; s = {}
        def get(k, f):
            try: s[k] = f()
            except Exception as e: s[k] = f'raises {type(e).__name__}'
        if isinstance(o, world.mods['groups'].Group):
            de = lambda L: [np.asarray(m @ np.eye(o.d, dtype=np.float32)) for m in L]
            get('lie', lambda: de(o.lie_algebra)); get('discrete', lambda: de(o.discrete_generators))
            for k in ('d', 'is_orthogonal', 'is_permutation', 'args', 'z_scale'): get(k, lambda k=k: np.asarray(getattr(o, k)).tolist() if k == 'z_scale' else bool(getattr(o, k)) if k[:2] == 'is' else getattr(o, k))
            get('repr', lambda: repr(o)); get('hash', lambda: hash(o))
            return s
        G = getattr(o, 'G', None)
        get('hash', lambda: hash(o)) # (before anything is computed from it)
        s['G'] = None if G is None else (id(G), repr(G)) if not isinstance(G, tuple) else repr(G)
        get('size', lambda: int(o.size())); get('str', lambda: str(o)); get('repr', lambda: repr(o)); get('is_permutation', lambda: bool(o.is_permutation))
        get('concrete', lambda: bool(o.concrete)); get('type', lambda: type(o).__name__)
        if hasattr(o, 'perm'): get('perm', lambda: np.array(o.perm)); get('invperm', lambda: np.array(o.invperm))
        if hasattr(o, 'reps'): get('reps', lambda: [(str(r), repr(getattr(r, 'G', None)), c) for r, c in o.reps.items()])
        if it.get('abstract'):
            for j, H in enumerate(it['bind']):
                def bound(H=H): b = o(H); return [str(b), int(b.size()), repr(getattr(b, 'G', None)), np.array(b.perm).tolist() if hasattr(b, 'perm') else None]
                get(f'bound to group {j}', bound)
        elif it['ne'] is not None:
            for k in ('rho', 'drho'):
                def mat():
                    import jax.numpy as jnp
                    as32 = lambda m: jnp.asarray(m, dtype=jnp.complex64 if np.iscomplexobj(m) else jnp.float32)
                    el = it['elem']
                    arg = {it['groups'][g]: as32(el[g][k == 'drho']) for g in el} if el else jnp.eye(2)
                    return world.dense(getattr(o, k)(arg))
                get(k, mat)
        return s
    def hook(self, world, env, op, i):
        import numpy as np
        from world import Violation
        R = world.mods['reps']
        # anything new
        for g, G in sorted(env.groups.items()): self.add(world, f'group {g}', G, None, {}, env)
        for v, r in sorted(env.vars.items()):
            if id(r) in self.items or isinstance(r, int): continue
            if v in env.abstract:
                self.add(world, v, r, None, {}, env, abstract=True); continue
            ne = env.norms[v]
            e1, e2 = world.element_for(ne, 7), world.element_for(ne, 8, True)
            self.add(world, v, r, ne, {g: (e1[g], e2[g]) for g in e1}, env)
            for j, p in enumerate(list(getattr(r, 'reps', None) or ())[:4]): self.add(world, f'part {j} of {v}', p, None, {}, env)
        for n in ('Scalar', 'V', 'Vector'):
            if id(getattr(R, n)) not in self.items: raise Violation('changed', f'after {op[0]}: {n} of the library is another object')
        for it in list(self.items.values()):
            self.looks += 1
            new = self.snap(world, it)
            for k, old in it['snap'].items():
                if not same(old, new[k]): raise Violation('changed', f'after {describe(op, world)}: {k} of {it["name"]} was {brief(old)}, is {brief(new[k])}')
        for (x, y), was in self.pairs.items():
            a, b = self.items[x]['obj'], self.items[y]['obj']
            now = (self.eq(a, b), self.eq(b, a))
            if now != was: raise Violation('changed', f'after {describe(op, world)}: {self.items[x]["name"]} == {self.items[y]["name"]} was {was}, is {now}')
        for (x, y), was in self.pairs.items():
            if isinstance(was[0], str): raise Violation('equality', f'{self.items[x]["name"]} == {self.items[y]["name"]} {was[0]}')
def describe(op, world):
    import history
    return history.describe_op(op, world)[:160]
def brief(x): return str(x)[:60]
def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-5, equal_nan=True)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

def execute(scn):
    import history
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=0, operations=0, switches=0, objects=0, looks=0))
    def go(s, profile=False):
        b = Book()
        r = history.run_history(s, profile=profile, op_hook=b.hook, start_hook=b.start)
        out['evals'] += 1; out['simtime'] += r['simtime']; st = out['stats']
        st['runs'] += 1; st['operations'] += r['ops']; st['switches'] += len(r['switches']); st['objects'] += len(b.items); st['looks'] += b.looks
        if b.looks > len(b.items): out['sigs'].add(sha([s['specs'], s['setup'], s['clients'], r['switches']]))
        if r['violation']: out['violation'] = r['violation']; out['concrete'] = s
        return r
    if plan is None: go(scn)
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}
        r = go(base, True)
        if not r['violation']:
            rng = random.Random(plan['seed']); n = len(scn['clients'])
            for j in range(plan['k'] if n > 1 else 0):
                pre = {}
                for _ in range(rng.choice([2, 4, 8])):
                    for t, st in pick_points(rng, r['lines'], 1): pre[(t, st)] = rng.choice([u for u in range(n) if u != t])
                r2 = go(dict(base, preempt=[[a, b, c] for (a, b), c in sorted(pre.items())]))
                if r2['violation']: break
            out['sample'] = dict(setup=[history.describe_op(op, r['world'])[:100] for op in scn['setup'][:2]], clients=[[history.describe_op(op, r['world'])[:100] for op in c[:3]] for c in scn['clients']])
    out['sigs'] = sorted(out['sigs'])
    return out
axes, simplify, valid = history_axes, simplify_history, valid_history
