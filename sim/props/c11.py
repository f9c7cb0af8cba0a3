import random
from .common import *
from .c05 import Script
COUNTS = {'quick': 160, 'thorough': 4000}
RULE = ('A case is a history of data set constructions (every class, sizes and options) in one simulated process by one or two client threads under a scripted random number generator (typical, extreme, zero, one-sided and repeated draws; extreme words in the generators of a group; any shuffling), '
        'with threads switched and interrupts or allocation failures injected at executed lines. Labels must be the documented function of the inputs (independent float64 model), that function, evaluated on inputs transformed by the declared representation of elements of the declared group, must be the transformed labels, '
        'statistics must commute with the group, and cubes must be solvable exactly as labelled (decided by cubie permutations, orientations and parities; for the cube of faces by its 24 rotations). '
        'Non-trivial: a data set with at least two different examples; counted once per distinct (construction, draws).')
MEASURE = 'distinct (class, arguments, generator script) decided'
ASSUMPTIONS = ['labels: inertia tensor; sin|x1| - |x2|^3/2 + cosine of the angle; contraction of the electron and muon tensors', 'agreement to 1e-4 of the sum of the absolute values of the terms']
STUBS = STUBS + ['numpy random generator (scripted)']
TIMEOUT = 240
def generate(rng, i, tier):
    def build():
        k = rng.choice(['Inertia'] * 3 + ['O5Synthetic'] * 3 + ['ParticleInteraction'] * 3 + ['InvertedCube', 'BrokenRubiksCube'])
        a = {}
        if k in ('Inertia', 'O5Synthetic', 'ParticleInteraction'):
            a['N'] = rng.choice([1, 2, 3, 7, 20, 64, 200])
            if rng.random() < .05: a = {}
        if k == 'Inertia' and rng.random() < .6: a['k'] = rng.randint(1, 7)
        if k.endswith('Cube'): a['train'] = rng.random() < .25
        mode = rng.choice(['typical', 'typical', 'extreme', 'zero', 'repeat', 'max', 'min'])
        if k == 'O5Synthetic' and mode == 'zero': mode = 'typical'
        return ['build', k, a, mode, rng.randrange(1 << 30)]
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ops = [build() for _ in range(rng.randint(1, 4))]
        if rng.random() < .15: ops.append(['broken', rng.choice(['flip', 'rot', 'rot2', 'swap']), 0, 0, rng.randrange(1 << 30)])
        clients.append(ops)
    return dict(specs=[], proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=clients, plan=dict(k=1 if tier == 'quick' else 4, seed=rng.randrange(1 << 30)))

class Draws(Script):
    """one script per client thread"""
    def permutation(self, x):
        import numpy as np
        p = self.rs.permutation(x)
        if self.mode == 'zero': p = np.sort(p)
        if self.mode == 'max': p = np.sort(p)[::-1].copy()
        return p

def label(kind, X, k=5):
    """the documented function of the inputs and the sum of the absolute values of its terms (float64)"""
    import numpy as np
    X = np.asarray(X, float)
    if kind == 'Inertia':
        m, r = X[:, :k], X[:, k:].reshape(len(X), k, 3); out = np.zeros((len(X), 3, 3)); ab = np.zeros(len(X))
        for j in range(k):
            v = r[:, j]; n2 = np.einsum('ni,ni->n', v, v)
            for a in range(3):
                for b in range(3): out[:, a, b] += m[:, j] * ((n2 if a == b else 0) - v[:, a] * v[:, b])
            ab += np.abs(m[:, j]) * n2 * 2
        return out.reshape(-1, 9), ab
    if kind == 'O5Synthetic':
        a, b = X[:, :5], X[:, 5:]; na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
        return (np.sin(na) - nb ** 3 / 2 + np.einsum('ni,ni->n', a, b) / na / nb)[:, None], 2 + nb ** 3 + na
    if kind == 'ParticleInteraction':
        P = X.reshape(-1, 4, 4); eta = np.diag([1., -1, -1, -1]); p1, p2, p3, p4 = (P[:, j] for j in range(4))
        dot = lambda a, b: a[:, 0] * b[:, 0] - (a[:, 1:] * b[:, 1:]).sum(1)
        up = np.einsum('ni,nj->nij', p1, p3) - (dot(p1, p3) - dot(p1, p1))[:, None, None] * eta
        lo = np.einsum('ni,nj->nij', p2 @ eta, p4 @ eta) - (dot(p2, p4) - dot(p2, p2))[:, None, None] * eta
        n = np.linalg.norm(P, axis=2)
        return 4 * np.einsum('nij,nij->n', up, lo)[:, None], 4 * ((n[:, 0] * n[:, 2] * 2 + n[:, 0] ** 2) * 2 * (n[:, 1] * n[:, 3] * 2 + n[:, 1] ** 2) * 2)

def solvable(state):
    """None if the moves of the cube lead from the solved state to this one, else why not. state: (6, 48) or (6, 6) one hot colours"""
    import numpy as np, oracle, members
    state = np.asarray(state)
    if np.abs(state - np.rint(state)).max() > 1e-3 or not (np.rint(state) >= 0).all() or not (np.rint(state).sum(0) == 1).all(): return 'not one colour per facelet'
    col = state.argmax(0)
    if state.shape[1] == 6:
        fin = members.finite_elements(['Cube'])
        return None if np.abs(fin - np.rint(state)).max((1, 2)).min() < .5 else 'not a rotation of the cube'
    F = oracle.FACELETS; cub = {}
    for j, (pos, n) in enumerate(F): cub.setdefault(pos, []).append(j)
    home = {frozenset(j // 8 for j in ids): {j // 8: j for j in ids} for ids in cub.values()}
    M = np.zeros((48, 48))
    for pos, ids in cub.items():
        h = home.get(frozenset(int(col[j]) for j in ids))
        if h is None: return 'a cubie that does not exist'
        for j in ids: M[j, h[int(col[j])]] = 1
    return members.rubik_legal(M)

def execute(scn):
    import numpy as np, sys, core, oracle, history, random as rnd
    from world import World, Env, Violation
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), faults={}, stats=dict(runs=0, datasets=0, labels=0, transformed=0, switches=0, scheduling_points=0, survived_faults=0), simtime=0.)
    real = {k: getattr(np.random, k) for k in ('randn', 'randint', 'permutation')}
    def restore():
        for k, v in real.items(): setattr(np.random, k, v)
    def check(ds, op, what):
        kind, a, mode, seed = op[1:]; rng = np.random.default_rng(seed)
        X, Y = np.asarray(ds.X), np.asarray(ds.Y); G = ds.symmetry; n = len(ds)
        want = a.get('N', 1024) if not kind.endswith('Cube') else None
        if want is not None and n != want: raise Violation('size', f'{what} has {n} examples')
        if len(X) != n or len(Y) != n: raise Violation('size', f'{what}: {len(X)} inputs, {len(Y)} labels, length {n}')
        if not np.isfinite(X).all() or not np.isfinite(Y).all(): raise Violation('finite', f'{what}: inputs or labels that are not finite')
        rin, rout = ds.rep_in(G), ds.rep_out(G)
        if X.shape[1:] != (rin.size(),): raise Violation('size', f'{what}: inputs of shape {X.shape[1:]}, representation of size {rin.size()}')
        if hasattr(ds, 'dim') and ds.dim != X.shape[1]: raise Violation('size', f'{what}: dim is {ds.dim} for inputs of shape {X.shape}')
        i = int(rng.integers(n)); x, y = ds[i]
        if not np.array_equal(x, X[i]) or not np.array_equal(y, Y[i]): raise Violation('item', f'{what}: item {i} is not example {i}')
        x, y = ds[list(range(n))[::-1]] if n > 1 else (X[::-1], Y[::-1])
        if not np.array_equal(x, X[::-1]) or not np.array_equal(y, Y[::-1]): raise Violation('item', f'{what}: items do not agree with X and Y')
        st = np.random.get_state(); np.random.seed(seed % 2**32); gs = np.asarray(G.samples(4)); np.random.set_state(st)
        Ri = [np.asarray(rin.rho_dense(g), float) for g in gs]; Ro = [np.asarray(rout.rho_dense(g), float) for g in gs]
        if kind.endswith('Cube'):
            if rout.size() != 2: raise Violation('size', f'{what}: output representation of size {rout.size()} for two classes')
            if set(np.unique(Y)) != {0, 1}: raise Violation('label', f'{what}: labels {sorted(set(np.unique(Y)))[:4]}')
            d = 6 if kind == 'InvertedCube' else 48
            if X.shape[1] != 6 * d: raise Violation('size', f'{what}: inputs of shape {X.shape}')
            for j in (range(n) if d == 6 or n < 50 else sorted(rng.choice(n, 60, replace=False))):
                why = solvable(X[j].reshape(6, d)); out['stats']['labels'] += 1
                if (why is None) != (Y[j] == 1): raise Violation('label', f'{what}: example {j} is labelled {Y[j]} but ' + ('can be solved' if why is None else f'cannot be solved: {why}'))
            for R, Q in zip(Ri, Ro):
                j = int(rng.integers(n)); why = solvable((R @ X[j]).reshape(6, d)); out['stats']['transformed'] += 1
                if (why is None) != (Y[j] == 1): raise Violation('symmetry', f'{what}: transforming example {j} by an element of {G} changes whether it can be solved')
                if np.abs(Q - np.eye(2)).max() > 1e-4: raise Violation('symmetry', f'{what}: class probabilities are not invariant')
        else:
            if Y.ndim != 2 or Y.shape[1] != rout.size(): raise Violation('size', f'{what}: labels of shape {Y.shape}, representation of size {rout.size()}')
            k = a.get('k', 5); f = lambda x: label(kind, x, k)
            if kind == 'Inertia' and not (X[:, :k] > 0).all(): raise Violation('input', f'{what}: masses that are not positive')
            want, ab = f(X); out['stats']['labels'] += n
            if Y.shape != want.shape: raise Violation('size', f'{what}: labels of shape {Y.shape}, should be {want.shape}')
            err = np.abs(Y - want).max(1) - 1e-5 * ab - 1e-9
            if (err > 0).any(): j = int(err.argmax()); raise Violation('label', f'{what}: label of example {j} is {Y[j][:3]}, should be {want[j][:3]}')
            for g, R, Q in zip(gs, Ri, Ro):
                gx = X @ R.T; y2, ab2 = f(gx); wy = want @ Q.T; out['stats']['transformed'] += n
                tol = 1e-4 * (ab2 + ab * np.abs(Q).sum(1).max()) + 1e-9
                if kind == 'O5Synthetic': tol = tol + 1e-3
                if (np.abs(y2 - wy).max(1) > tol).any(): raise Violation('symmetry', f'{what}: labels of inputs transformed by an element of {G} are not the transformed labels')
            if mode == 'typical' and n > 1 and len(np.unique(X, axis=0)) < n: raise Violation('draws', f'{what}: repeated inputs')
        st = ds.stats
        if len(st) not in (2, 4): raise Violation('stats', f'{what}: {len(st)} statistics')
        def commute(s, R, name, scale):
            s = np.broadcast_to(np.asarray(s, float), (len(R),)) if np.size(s) in (1, len(R)) else None
            if s is None: raise Violation('stats', f'{what}: {name} has the wrong shape')
            if not np.isfinite(s).all(): raise Violation('stats', f'{what}: {name} is not finite')
            e = np.abs(R * s[None] - s[:, None] * R).max() if scale else np.abs(R @ s - s).max()
            if e > 1e-3 * max(1, np.abs(s).max()) * max(1, np.abs(R).max()): raise Violation('stats', f'{what}: {name} does not respect the symmetry (by {e:.2g})')
        for R, Q in zip(Ri, Ro):
            commute(st[0], R, 'input mean', False); commute(st[1], R, 'input scale', True)
            if len(st) == 4: commute(st[2], Q, 'output mean', False); commute(st[3], Q, 'output scale', True)
        if mode in ('typical', 'extreme') and n > 1:
            for j in (1, 3):
                if j < len(st) and not (np.asarray(st[j]) > 0).all(): raise Violation('stats', f'{what}: a scale that is not positive')
        out['stats']['datasets'] += 1; out['evals'] += 1
        if n > 1: out['sigs'].add(sha(op))
    def run(s, profile=False):
        w = World([], extra=('emlp.datasets',), **s['proc']); D = sys.modules['emlp.datasets']; viol = []
        sched = core.Sched(s.get('preempt', ()), s.get('faults', ()), profile=profile)
        scripts = {}
        def route(name):
            def fn(*a, **k):
                c = sched.me(); sc = scripts.get(c.tid) if c is not None and not c.quiet else None
                return getattr(sc, name)(*a, **k) if sc is not None and not (name == 'randint' and sc.mode == 'off') else real[name](*a, **k)
            return fn
        def client(t):
            def body(c):
                for i, op in enumerate(s['clients'][t]):
                    if viol: return
                    what = f'client {t} op {i} ' + (f'{op[1]}({", ".join(f"{k}={v}" for k, v in op[2].items())}) under {op[3]} draws (seed {op[4]})' if op[0] == 'build' else f'broken cube {op[1]}')
                    for _ in range(3): # (a construction that was cut short is tried again)
                        fired = len([f for f in sched.fired if f[0] == t])
                        try:
                            if op[0] == 'build':
                                scripts[t] = Draws(op[3], op[4])
                                try: ds = getattr(D, op[1])(**op[2])
                                finally: scripts.pop(t, None)
                                c.quiet += 1
                                try: check(ds, op, what)
                                finally: c.quiet -= 1
                            else:
                                c.quiet += 1
                                try:
                                    solved = np.zeros((6, 48))
                                    for f in range(6): solved[f, 8 * f:8 * f + 8] = 1
                                    rng = np.random.default_rng(op[4]); M = np.eye(48); gens = oracle.group(['RubiksCube'])[2]
                                    if op[1] != 'swap':
                                        for _ in range(rng.integers(0, 20)): M = M @ gens[rng.integers(len(gens))]
                                    start = solved @ M; keep = start.copy()
                                    got = {'flip': D.UBedge_flip, 'rot': D.ULBcorner_rot, 'rot2': lambda v: D.ULBcorner_rot(v, 2), 'swap': D.LBface_swap}[op[1]](start)
                                    out['evals'] += 1
                                    if not np.array_equal(keep, start): raise Violation('changed', f'{what}: changes the state it is given')
                                    if solvable(start) is not None: raise core.HarnessError('scramble')
                                    if solvable(got) is None: raise Violation('label', f'{what}: can be solved')
                                finally: c.quiet -= 1
                            break
                        except core.Abort: raise
                        except Violation as v: viol.append({'kind': v.kind, 'msg': str(v)}); return
                        except BaseException as e:
                            if len([f for f in sched.fired if f[0] == t]) > fired: out['stats']['survived_faults'] += 1; continue
                            viol.append({'kind': 'error', 'msg': f'{what} raised {type(e).__name__}: {str(e)[:300]} in {history.where(e)}'}); return
            return body
        for k in real: setattr(np.random, k, route(k))
        try: cs = sched.run([client(t) for t in range(len(s['clients']))])
        finally: restore()
        for c in cs:
            if c.exc is not None: raise c.exc
        out['stats']['runs'] += 1; out['stats']['switches'] += len(sched.switches); out['stats']['scheduling_points'] += sched.total; out['simtime'] += sched.now - 1e9
        for f in sched.fired: out['faults'][f[2]] = out['faults'].get(f[2], 0) + 1
        if sched.dead and not viol: viol.append({'kind': 'blocked', 'msg': sched.dead})
        if viol: out['violation'] = viol[0]; out['concrete'] = s
        return sched
    if plan is None: run(scn)
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}
        r = run(base, True); rng = rnd.Random(plan['seed']); n = len(scn['clients'])
        for j in range(plan['k']):
            if out['violation']: break
            s = dict(base)
            if n > 1:
                pre = {}
                for _ in range(rng.choice([1, 3, 10])):
                    for t, st in pick_points(rng, r.lines, 1): pre[(t, st)] = rng.choice([u for u in range(n) if u != t])
                s['preempt'] = [[a, b, c] for (a, b), c in sorted(pre.items())]
            if n == 1 or rng.random() < .5: s['faults'] = [[t, st, rng.choice(['interrupt', 'memory', 'runtime'])] for t, st in pick_points(rng, r.lines, 1)]
            run(s)
        out['sample'] = dict(clients=[[o[:4] for o in c] for c in scn['clients']])
    out['sigs'] = sorted(out['sigs'])
    return out
def axes(scn): return [('clients', t) for t in range(len(scn['clients']))] + [(k,) for k in ('preempt', 'faults') if scn.get(k)]
def simplify(scn):
    import copy
    for t, ops in enumerate(scn['clients']):
        for i, op in enumerate(ops):
            if op[0] == 'build' and op[2].get('N', 0) > 2:
                for n in (1, 2, op[2]['N'] // 2): c = copy.deepcopy(scn); c['clients'][t][i][2]['N'] = n; yield c
            if op[0] == 'build' and op[3] != 'typical': c = copy.deepcopy(scn); c['clients'][t][i][3] = 'typical'; yield c
