import random
from .common import *
COUNTS = {'quick': 190, 'thorough': 4000}
TIMEOUT = 300
RULE = ('A case is one solve by the iterative solver in a simulated process whose size limits are lowered, with a scripted random start (typical, or with the component along some solution direction as small as happens once in 1e5 draws), '
        'possibly a memory limit that is hit at a rank doubling, and possibly a fault (interrupt at an executed line, failing SVD). The outcome must be the exact invariant subspace, an exception, or (with an error logged) orthonormal invariant '
        'vectors; the same question asked again afterwards must be answered correctly, and well conditioned problems must be solved within 8 attempts. Non-trivial: the iterative solver drew a random start; counted once per distinct (problem, limits, draw).')
MEASURE = 'distinct (problem, size limits, random start, outcome class) combinations'
ASSUMPTIONS = ['the random start is normally distributed; starts less likely than 1e-5 (relative to the smallest singular value that matters) are not explored', 'problems up to dimension 243']
STUBS = STUBS + ['numpy random normal draws (scripted)']
def generate(rng, i, tier):
    import gen, oracle
    qs = []
    x = i % 5
    if x == 0:   # many invariant vectors: at, below and above the rank bounds
        k = rng.choice([4, 6, 7, 8, 9, 10, 11, 12, 13, 17, 18, 19, 20, 21, 23, 35, 38, 39, 40, 41])
        b = rng.choice([['SO', 2], ['SL', 2], ['C', 4], ['O', 3]]); d0 = oracle.group(b)[0]
        sp = rng.choice([['Trivial', k], ['Embed', b, k + d0, [rng.randint(0, k), 0, 1]]])
        if sp[0] == 'Embed': sp[3][1] = sp[3][0] + d0
        if rng.random() < .4: # constraints so large that the first step sizes diverge
            m = rng.randint(1, 3); n = k + m; s = 10 ** rng.uniform(1, 1.9)
            w = [0.] * k + [s * rng.uniform(1, 1.3) for _ in range(m)]; rng.shuffle(w)
            sp = ['user', 'Steep', [i], [[[w[a] if a == b else 0. for b in range(n)] for a in range(n)]], []]
        specs = [sp]; qs = [['V', 0]]
    elif x == 1: # slowly converging constraints
        specs = [rng.choice([['C', rng.randint(12, 130)], ['D', rng.randint(12, 130)], ['DkeR3', rng.randint(12, 100)], ['Z', rng.randint(8, 30)]])]
        qs = [['pow', ['V', 0], 1 if specs[0][0] == 'Z' else rng.choice([1, 2, 2, 3])]]
    elif x == 2: # tensors
        specs = [rng.choice([['S', 3], ['S', 4], ['Z', 3], ['Z', 4], ['O', 3], ['SO', 3], ['SO', 2], ['SO13p'], ['SL', 2], ['Sp', 1], ['Sp', 2], ['Cube'], ['D', 4], ['C', 4], ['O11'], ['ZksZnxZn', 2, 2]])]
        d = oracle.group(specs[0])[0]
        for _ in range(rng.randint(1, 2)):
            p, q = rng.choice([(1, 0), (2, 0), (1, 1), (3, 0), (2, 1), (4, 0), (2, 2), (0, 2)])
            if d ** (p + q) <= 243: qs.append(['T', p, q, 0])
        qs = qs or [['V', 0]]
    else:
        specs = [gen.group(rng, 6)]
        dims = {0: oracle.group(specs[0])[0]}
        qs = [gen.expr(rng, [0], rng.choice([1, 2, 2]), dims, 100, ['complex'] + ([0] if oracle.is_complex(specs[0]) else [])) for _ in range(rng.randint(1, 2))]
    n = max(oracle.size(gen.norm(e), {0: oracle.group(specs[0])[0]}) for e in qs)
    _, lie, dis = oracle.group(specs[0]); rows = n * max(1, len(lie) + len(dis))
    klim = None
    if rng.random() < (.6 if x == 0 else .2): klim = rows * rng.choice([8, 10, 15, 20, 30, 40, 79, 80, 120] if x else [12, 15, 20, 25, 39, 45, 60])
    svd = rng.choice([1, 1, 1, 1, n * rows // 2])
    draws = [[rng.choice(['typical', 'unlucky', 'unlucky', 'scaled']), rng.randrange(1 << 30)] for _ in range(12)]
    faults, seamfaults = [], []
    if rng.random() < .4 and x != 1:
        for _ in range(rng.randint(1, 2)):
            if rng.random() < .5: faults.append([0, int(10 ** rng.uniform(1, 4.5)), rng.choice(['interrupt', 'memory', 'runtime'])])
            else: seamfaults.append([0, rng.choice(['lapack_svd', 'device_put']), rng.randint(1, 2), rng.choice(['linalg', 'memory', 'interrupt'])])
    ops = []
    for e in qs: ops.append(['Q', rng.choice(['basis', 'basis', 'proj']), e])
    for e in qs: ops.append(['Q', 'basis', e])
    return dict(specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20), svd_limit=svd, krylov_limit=klim), clients=[ops], draws=draws, faults=faults, seamfaults=seamfaults)

def execute(scn):
    import numpy as np, core, oracle, gen, logging
    from world import World, Env, Violation, do_op, show
    w = World(scn['specs'], **scn['proc'])
    env = Env(w); ndraw = [0]; st = dict(runs=1, solved=0, raised=0, truncated=0, draws=0, retries=0, ill_conditioned=0)
    out = dict(violation=None, evals=0, sigs=set(), faults={}, stats=st, simtime=0.)
    cur = {}
    real = np.random.randn
    def randn(*shape):
        mode, seed = scn['draws'][ndraw[0] % len(scn['draws'])]; seed += 7919 * (ndraw[0] // len(scn['draws'])); ndraw[0] += 1; st['draws'] += 1
        W = np.random.RandomState(seed % 2**32).randn(*shape)
        cur['sig'].append([mode, seed])
        if mode == 'scaled': return W * (.5 + (seed % 100) / 66)
        B = cur.get('B')
        if mode == 'unlucky' and B is not None and len(shape) == 2 and B.shape[0] == shape[0] and B.shape[1]:
            A = B.T @ W
            u, s, vt = np.linalg.svd(A, full_matrices=False)
            s2 = s.copy(); s2[-1] *= 1e-5 ** (1 / (abs(A.shape[1] - A.shape[0]) + 1))
            W = W + B @ (u * (s2 - s)) @ vt
        return W
    np.random.randn = randn
    truncated = False
    try:
        for i, op in enumerate(scn['clients'][0]):
            ne = gen.norm(op[2]); n = oracle.size(ne, w.dims)
            try: r, P = oracle.fixed_space(ne, w.specs)
            except oracle.IllConditioned: st['ill_conditioned'] += 1; continue
            ev, U = np.linalg.eigh((P + P.conj().T) / 2)
            cur['B'] = U[:, ev > .5].real if not np.iscomplexobj(P) or np.abs(P.imag).max() < 1e-9 else None
            good = well_conditioned(ne, w, oracle)
            for attempt in range(8 if good else 2):
                core.ERRORS.records.clear(); cur['sig'] = []
                first = i == 0 and attempt == 0
                s = core.Sched(faults=scn.get('faults', ()) if first else (), seamfaults=scn.get('seamfaults', ()) if first else (), step_limit=12000000)
                box = {}
                def client(c):
                    rep = w.build(op[2], env); val = w.ask(op[1], rep, ne, env)
                    box['val'] = val
                (c,) = s.run([client])
                for f in s.fired: out['faults'][f[2] + '@' + ('backend' if f[4] == 0 else 'line')] = out['faults'].get(f[2] + '@' + ('backend' if f[4] == 0 else 'line'), 0) + 1
                out['simtime'] += s.now - 1e9
                err = any(l >= logging.ERROR for l, _ in core.ERRORS.records)
                if s.dead: out['violation'] = dict(kind='blocked', msg=f'op {i} {op[1]} of {show(op[2], w)}: {s.dead}'); return fin(out)
                what = f'op {i} attempt {attempt}: {op[1]} of {show(op[2], w)} by the iterative solver'
                if c.exc is not None:
                    if isinstance(c.exc, core.HarnessError): raise c.exc
                    st['raised'] += 1
                    if cur['sig'] or s.fired: out['evals'] += 1; out['sigs'].add(sha([scn['specs'], op, scn['proc'], cur['sig'], 'raised']))
                    if s.fired: continue
                    if scn['proc'].get('krylov_limit') is not None and 'too large' in str(c.exc): break
                    st['retries'] += 1
                    if attempt == 7 and good: out['violation'] = dict(kind='never', msg=f'{what}: well conditioned, but fails every time: {type(c.exc).__name__} {str(c.exc)[:150]}'); return fin(out)
                    continue
                truncated = truncated or err
                if cur['sig']: out['evals'] += 1; out['sigs'].add(sha([scn['specs'], op, scn['proc'], cur['sig'], err])); out['sample'] = dict(query=show(op[2], w), dim=n, rank=r, limits=[scn['proc'].get('svd_limit'), scn['proc'].get('krylov_limit')], draws=cur['sig'][:4], truncated=err)
                try:
                    if truncated: # orthonormal and invariant
                        st['truncated'] += 1; v = np.asarray(box['val'])
                        if op[1] == 'basis':
                            w.close(v.conj().T @ v, np.eye(v.shape[1]), what + ' (truncated): orthonormality')
                            w.close(P @ v, np.asarray(v, complex if np.iscomplexobj(v) else float), what + ' (truncated): invariance')
                        else:
                            w.close(P @ v, np.asarray(v, float), what + ' (truncated): invariance'); w.close(v @ v, np.asarray(v, float), what + ' (truncated): projection')
                    else:
                        st['solved'] += 1; w.check_query(op[1], box['val'], ne, what)
                except Violation as v: out['violation'] = dict(kind=v.kind, msg=v.msg); return fin(out)
                break
    finally: np.random.randn = real
    return fin(out)
def fin(out):
    out['sigs'] = sorted(out['sigs']); return out
def well_conditioned(ne, w, oracle):
    if ne[0] not in ('V', 'prod'): return False
    import numpy as np
    s = oracle.spectrum(ne, w.specs)
    nz = s[s > 1e-6]
    return len(nz) == 0 or (nz.min() > .3 and nz.max() < 8)
def axes(scn): return [('clients', 0)] + [(k,) for k in ('faults', 'seamfaults') if scn.get(k)]
