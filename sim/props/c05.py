import random
from .common import *
COUNTS = {'quick': 130, 'thorough': 3000}
RULE = ('A case is one sampling call in a simulated process under a scripted random number generator: typical, extreme (tails of the normal distribution, powers at their limits), zero, and repeated draws, any batch size, several groups in turn. '
        'Every matrix must satisfy the defining equations of the documented group; batches of typical draws must not repeat one element; over many draws every component, direction and element of a small finite group must appear; '
        'the group must not change. Non-trivial: a matrix different from the identity came out; counted once per distinct (group, script, batch size).')
MEASURE = 'distinct (group, generator script, batch size) with a result other than the identity'
ASSUMPTIONS = ['coverage of generators is judged on 600 to 3000 draws of the library own generator per group', 'finite groups with more than 60 elements: every element is checked for membership, but not that each one appears']
STUBS = STUBS + ['numpy random generator (scripted)']
TIMEOUT = 300
def oracle_dim(s):
    import oracle
    return oracle.group(s)[0]
MODES = ['typical', 'typical', 'extreme', 'zero', 'repeat', 'max', 'min']
def generate(rng, i, tier):
    import gen, history
    specs = []
    for _ in range(rng.randint(1, 3)):
        s = gen.group(rng, 50 if rng.random() < .15 else 12)
        if rng.random() < .12: s = ['ZksZnxZn', rng.choice([2, 4]), rng.randint(2, 3)]
        specs.append(s)
        t = history.sibling(rng, s) if rng.random() < .5 else None # (another group of the same shape or class)
        if t is not None and t not in specs and oracle_dim(t) <= 50: specs.append(t)
    ops = []
    for g in range(len(specs)):
        for _ in range(rng.randint(1, 3)): ops.append(['samples', g, rng.choice([1, 1, 2, 5, 16]), rng.choice(MODES), rng.randrange(1 << 30)])
        ops.append(['sample', g, 1, rng.choice(MODES), rng.randrange(1 << 30)])
        if rng.random() < .4: ops.append(['regroup', g])
    ops += [['cover', g, 0, 'typical', rng.randrange(1 << 30)] for g in range(len(specs))]
    rng.shuffle(ops)
    return dict(specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=[ops])

class Script:
    """stands in for numpy's global generator"""
    def __init__(self, mode, seed):
        import numpy as np
        self.rs, self.mode = np.random.RandomState(seed), mode
    def randn(self, *s):
        import numpy as np
        z = self.rs.randn(*s)
        if self.mode == 'extreme': z = np.sign(z) * (3 + np.abs(z) / 2)
        if self.mode == 'zero': z = z * 0
        if self.mode == 'repeat' and z.ndim: z = z[:1] + 0 * z
        if self.mode in ('max', 'min'): z = np.abs(z) * (1 if self.mode == 'max' else -1) * 2
        return z
    def randint(self, low, high=None, size=None, dtype=int):
        import numpy as np
        if high is None: low, high = 0, low
        k = self.rs.randint(low, high, size)
        if self.mode == 'zero' and low <= 0 < high: k = k * 0
        if self.mode == 'max': k = k * 0 + high - 1
        if self.mode == 'min': k = k * 0 + low
        if self.mode == 'extreme': k = np.where(self.rs.rand(*np.shape(k)) < .5, low, high - 1) if np.ndim(k) else k
        if self.mode == 'repeat' and np.ndim(k): k = k[:1] + 0 * k
        return k

def execute(scn):
    import numpy as np, core, oracle, members
    from world import World, Env, gname
    w = World(scn['specs'], **scn['proc']); env = Env(w)
    out = dict(violation=None, evals=0, sigs=set(), faults={}, stats=dict(runs=1, matrices=0, identity=0, coverage_runs=0), simtime=0.)
    rr, ri = np.random.randn, np.random.randint
    def bad(kind, msg): out['violation'] = dict(kind=kind, msg=msg); return fin(out)
    def snapshot(G):
        de = lambda L: [np.asarray(m @ np.eye(G.d, dtype=np.float32)) for m in L]
        return de(G.lie_algebra), de(G.discrete_generators), repr(G), hash(G), G.d, bool(G.is_orthogonal), bool(G.is_permutation)
    def same(a, b): return a[2:] == b[2:] and all(len(x) == len(y) and all(np.array_equal(p, q) for p, q in zip(x, y)) for x, y in zip(a[:2], b[:2]))
    try:
        for i, op in enumerate(scn['clients'][0]):
            if op[0] == 'regroup': env.fresh_group(op[1]); env.groups.pop(op[1], None); continue
            k, g, n, mode, seed = op; spec = scn['specs'][g]; name = gname(spec)
            try:
                G = env.group(g); before = snapshot(G)
                if k == 'cover':
                    np.random.randn, np.random.randint = rr, ri
                    np.random.seed(seed % 2**32)
                    fin_ = members.finite_elements(spec, 60)
                    N = 300 if fin_ is None else 1000
                    xs = np.concatenate([np.asarray(G.samples(N)) for _ in range(2 if fin_ is None else 3)])
                else:
                    s = Script(mode, seed); np.random.randn, np.random.randint = s.randn, s.randint
                    if k == 'samples': xs = np.asarray(G.samples(n))
                    else: xs = np.asarray(G.sample())[None]
            except Exception as e:
                return bad('error', f'op {i} {k}({n}) of {name} under {mode} draws raised {type(e).__name__}: {str(e)[:200]}')
            finally: np.random.randn, np.random.randint = rr, ri
            if k != 'cover' and xs.shape != (n, G.d, G.d): return bad('shape', f'op {i} {k}({n}) of {name}: shape {xs.shape}')
            for j, x in enumerate(xs):
                why = members.why_not(spec, x)
                out['stats']['matrices'] += 1
                if why: return bad('member', f'op {i} {k}({n}) of {name} under {mode} draws (seed {seed}): element {j} {why}')
            if not same(before, snapshot(G)): return bad('changed', f'op {i} {k}({n}) of {name} changed the group')
            out['evals'] += 1
            if np.abs(xs - np.eye(G.d)).max() > 1e-3: out['sigs'].add(sha([spec, k, n, mode, seed]))
            else: out['stats']['identity'] += 1
            d, lie, dis = oracle.group(spec)
            if k == 'cover':
                out['stats']['coverage_runs'] += 1
                miss = members.kinds_reached(spec, xs) if lie or dis else []
                if miss: return bad('cover', f'op {i}: {len(xs)} samples of {name} never exercise ' + ', '.join(miss))
            elif mode == 'typical' and n >= 16 and (lie or dis):
                u = len({np.round(x, 4).tobytes() for x in xs + 0.})
                if u < (n if lie else 2): return bad('separate', f'op {i}: a batch of {n} samples of {name} has only {u} different elements')
            out['sample'] = dict(group=name, call=f'{k}({n})', draws=mode)
    finally: np.random.randn, np.random.randint = rr, ri
    return fin(out)
def fin(out): out['sigs'] = sorted(out['sigs']); return out
def axes(scn): return [('clients', 0)]
