import random
from .common import *
COUNTS = {'quick': 130, 'thorough': 3000}
RULE = ('A case is a set of expressions (sums, products, powers, multiples, duals, maps, unbound ones instantiated later) over up to three groups, built in four simulated processes that differ in hash values, object addresses, '
        'random generator state, order in which groups and representations are created, and whether group objects are shared or made anew. In each process the matrices of a group element and of an algebra element must equal the direct sums, '
        'Kronecker products and sums, and inverse transposes in the written order; the name, canonical form and permutation must be the same in all processes, and the permutation must turn the matrices into those of the canonical form. '
        'Non-trivial: the canonical order differs from the written order, or two groups are involved; counted once per distinct (expression, groups).')
MEASURE = 'distinct expressions whose canonical order is not the written one or that involve several groups'
ASSUMPTIONS = ['single precision tolerance 2e-3 relative to the largest entry']
TIMEOUT = 240
def generate(rng, i, tier):
    import history, gen, oracle
    specs = history.random_specs(rng, rng.choice([1, 2, 2, 3, 3]))
    dims = {k: oracle.group(s)[0] for k, s in enumerate(specs)}
    custom = ['complex'] + [k for k, s in enumerate(specs) if oracle.is_complex(s)]
    exprs = []
    for _ in range(rng.randint(3, 6)):
        if exprs and rng.random() < .3: e = gen.shuffle_expr(rng, rng.choice(exprs))
        else: e = history.fresh_expr(rng, specs, dims, rng.randint(1, 4), rng.choice([30, 90, 150]), custom, 3)
        exprs.append(e)
    if rng.random() < .3 and len(specs) > 1: # sums and products of everything in reverse creation order
        gs = list(range(len(specs))); rng.shuffle(gs)
        e = [rng.choice(['sum', 'prod'])] + [rng.choice([['V', g], ['dual', ['V', g]], ['sum', ['V', g], ['S']]]) for g in gs]
        if oracle.size(gen.norm(e), dims) <= 150: exprs.append(e)
    procs = []
    for _ in range(4):
        o = list(range(len(exprs))); g = list(range(len(specs))); rng.shuffle(o); rng.shuffle(g)
        procs.append(dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20), order=o, groups=g, anew=rng.random() < .5, solve=[k for k in range(len(exprs)) if rng.random() < .25]))
    return dict(specs=specs, exprs=exprs, procs=procs, seed=rng.randrange(1 << 30))
def form(r):
    """canonical form of a representation, as text"""
    if hasattr(r, 'reps'): return [type(r).__name__.replace('FromCollection', '')] + [[form(x), c] for x, c in r.reps.items()]
    return [type(r).__name__, str(r), repr(getattr(r, 'G', None))]
def execute(scn):
    import numpy as np, jax.numpy as jnp, oracle, gen
    from world import World, Env, show, Violation
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=0, matrices=0))
    seen = {}
    def bad(kind, msg): out['violation'] = dict(kind=kind, msg=msg); return done()
    def done(): out['sigs'] = sorted(out['sigs']); return out
    for j, p in enumerate(scn['procs']):
        w = World(scn['specs'], salt=p['salt'], npseed=p['npseed']); env = Env(w)
        for g in p['groups']:
            if g < len(scn['specs']): env.group(g)
        out['stats']['runs'] += 1
        for k in p['order']:
            if k >= len(scn['exprs']): continue
            e = scn['exprs'][k]; ne = gen.norm(e); gs = oracle.groups_of(ne); what = f'process {j}: {show(e, w)}'
            if p['anew']:
                for g in gs: env.groups.pop(g, None)
            try:
                r = w.build(e, env)
                if isinstance(r, int): continue
                n = oracle.size(ne, w.dims)
                el = {a: w.element_for(ne, scn['seed'] + k, a == 'drho') for a in ('rho', 'drho')}
                got = {}
                for a in ('rho', 'drho'):
                    arg = {env.group(g): jnp.asarray(m, dtype=jnp.complex64 if np.iscomplexobj(m) else jnp.float32) for g, m in el[a].items()} if gs else jnp.eye(2)
                    got[a] = (w.dense(getattr(r, a)(arg)), arg)
                c, perm = r.canonicalize()
                if k in p['solve'] and n <= 40: r.equivariant_basis()
                cm = {a: w.dense(getattr(c, a)(got[a][1])) for a in got}
                f = json.dumps([form(c), str(r), repr(r)]); perm = np.array(perm)
            except Exception as x:
                import history
                return bad('error', f'{what} raised {type(x).__name__}: {str(x)[:200]} in {history.where(x)}')
            try:
                for a in got: w.close(got[a][0], getattr(oracle, a)(ne, el[a]), f'{what}: {a}'); out['stats']['matrices'] += 1
                if r.size() != n: raise Violation('shape', f'{what}: size {r.size()}, should be {n}')
                if sorted(perm.tolist()) != list(range(n)): raise Violation('permutation', f'{what}: canonicalize() reports {perm.tolist()[:20]}, not a permutation')
                for a in cm: w.close(cm[a], np.asarray(got[a][0])[np.ix_(perm, perm)].astype(complex), f'{what}: {a} of the canonical form')
                cc, p2 = c.canonicalize()
                if not np.array_equal(p2, np.arange(n)) or form(cc) != form(c): raise Violation('canonical', f'{what}: the canonical form is not canonical')
            except Violation as v: return bad(v.kind, v.msg)
            out['evals'] += 1
            if k in seen:
                if seen[k][0] != f: return bad('process', f'{what}: canonical form and name {f[:200]}, in another process {seen[k][0][:200]}')
                if not np.array_equal(seen[k][1], perm): return bad('process', f'{what}: permutation {perm.tolist()[:20]}, in another process {seen[k][1].tolist()[:20]}')
            else: seen[k] = (f, perm)
            if len(gs) > 1 or not np.array_equal(perm, np.arange(n)): out['sigs'].add(sha([e, [scn['specs'][g] for g in gs]])); out['sample'] = dict(expression=show(e, w)[:200], permutation=perm.tolist()[:16])
    return done()
def axes(scn): return [('procs',), ('exprs',)] + [('procs', j, 'solve') for j in range(len(scn['procs']))]
def simplify(scn):
    import copy
    for k, e in enumerate(scn['exprs']):
        for x in smaller(e):
            c = copy.deepcopy(scn); c['exprs'][k] = x; yield c
def valid(scn): return bool(scn['procs'] and scn['exprs'])
