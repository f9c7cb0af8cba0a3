import random
from .common import *
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 130, 'thorough': 3000}
KINDS = ['interrupt', 'interrupt', 'memory', 'runtime', 'linalg', 'assertion']
RULE = ('A case is one simulated process in which a client asks for bases, projectors, representation matrices and layers while one to four faults hit it: an exception (interrupt, out of memory, backend error, solver failure) '
        'at an executed line of the library, or an error / an array of nans from a call into the numerical backend. The client carries on, asking everything again, reordered and in other combinations; all answers are compared with the '
        'reference. Fault points are taken evenly from the distinct lines executed by a fault free run of the same history. Non-trivial: a fault fired inside the library; counted once per distinct (code line or backend call, fault kind, operation).')
MEASURE = 'distinct (code line hit or backend call, fault kind, kind of operation hit)'
ASSUMPTIONS = ['faults strike at line boundaries of the library and at its backend calls, not inside jax, numpy or plum', 'process state outside the library (jax caches) survives faults undamaged']
TIMEOUT = 240
def slow(rng, tier):
    """problems left to the iterative solver, several of one shape"""
    import oracle, gen
    U = {u[1]: u for u in gen.USERS}
    specs = [rng.choice([['SL', 2], ['SL', 2], ['SL', 2], U['Squeeze'], U['Shear'], U['Squeeze'], ['SO', 2], ['O11'], ['SO11p'], ['Sp', 1], ['C', 4], ['D', 3], ['O', 2], ['SO', 3], ['Z', 3], ['S', 3]])]
    if rng.random() < .4: specs.append(rng.choice([s for s in [['SO', 2], ['SO', 3], ['Z', 3], ['C', 3], ['S', 3], ['SL', 2]] if s not in specs and oracle.group(s)[0] == oracle.group(specs[0])[0]] or [['SO', 2], ['SO', 3]]))
    ts = rng.choice([[(2, 0), (1, 1), (0, 2)], [(1, 1), (2, 0)], [(1, 0), (0, 1), (1, 1)], [(2, 1), (1, 2), (3, 0)] if oracle.group(specs[0])[0] == 2 else [(2, 0), (0, 2)]])
    qs = [['Q', 'basis', ['T', p, q, g]] for p, q in ts for g in range(len(specs))]
    rng.shuffle(qs)
    again = [['Q', rng.choice(['basis', 'basis', 'proj']), q[2]] for q in qs]; rng.shuffle(again)
    return dict(specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20), svd_limit=1), clients=[qs[:3] + again[:4]], plain=True,
                plan=dict(k=12 if tier == 'quick' else 16, seed=rng.randrange(1 << 30), nops=min(3, len(qs))))
def generate(rng, i, tier):
    import history, gen
    if i % 7 == 5: return slow(rng, tier)
    specs = history.random_specs(rng, rng.randint(1, 3))
    ops = history.random_ops(rng, specs, rng.randint(3, 7), cap=rng.choice([12, 30, 60]), maxg=3, layers=.15, weights=(7, 3, 1, 2, 1, 1))
    again = []
    for op in ops:
        if op[0] == 'Q':
            for _ in range(rng.choice([1, 1, 2])):
                e = op[2]
                if not history.uses_ref(e) and rng.random() < .5: e = gen.shuffle_expr(rng, e)
                again.append(['Q', rng.choice(['basis', 'basis', 'proj', op[1]]), e])
        elif op[0] in ('L', 'BL'): again.append(op)
    rng.shuffle(again)
    extra = dict(warm=history.warmup(rng)) if rng.random() < .06 else {}
    return dict(extra, specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=[ops + again], plain=rng.random() < .7,
                plan=dict(k=8 if tier == 'quick' else 14, seed=rng.randrange(1 << 30), nops=len(ops)))
SEAMS = {'jax_svd': ['nan', 'nan', 'runtime', 'memory', 'interrupt'], 'lapack_svd': ['linalg', 'memory', 'interrupt'], 'linalg': ['linalg', 'memory', 'interrupt'], 'device_put': ['runtime', 'memory', 'interrupt']}
def execute(scn):
    import history
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=0, operations=0, failed_operations=0, fault_free_runs=0, faults_survived_by_fallback=0))
    def add(r):
        out['evals'] += 1; out['simtime'] += r['simtime']; s = out['stats']
        s['runs'] += 1; s['operations'] += r['ops']; s['failed_operations'] += r['failed_ops']
        s['fault_free_runs'] += not r['fired']; s['faults_survived_by_fallback'] += max(0, len(r['fired']) - r['failed_ops'])
        marks = r['marks'][0] if r.get('marks') else []
        for t, n, kind, fn, line in r['fired']:
            name = ('nan' if kind == 'nan' else kind) + ('@backend' if line == 0 else '@line')
            out['faults'][name] = out['faults'].get(name, 0) + 1
            i = max([j for j, st in marks if st < n] or [0]) if line else -1
            out['sigs'].add(sha([fn, line, kind, scn['clients'][0][i][:2] if i >= 0 else None]))
    if plan is None:
        r = history.run_history(scn); add(r); out['violation'] = r['violation']
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}
        r = history.run_history(base, profile=True)
        add(r)
        if r['violation']: out['violation'] = r['violation']; out['concrete'] = base
        else:
            rng = random.Random(plan['seed'])
            lim = r['marks'][0][plan['nops']][1] if plan['nops'] < len(r['marks'][0]) else 10**9
            first = type(r['lines'])(); first.extend(x for x in r['lines'] if x[1] <= lim); first.mut = [x for x in r['lines'].mut if x[1] <= lim]
            calls = [(s, n) for s, c in sorted(r['calls'][0].items()) for n in range(1, c + 1)]
            for _ in range(plan['k']):
                s = dict(base); nf = rng.choice([1, 1, 1, 2, 2, 4])
                s['faults'], s['seamfaults'] = [], []
                for _ in range(nf):
                    if calls and rng.random() < .25:
                        nm, n = rng.choice(calls); s['seamfaults'].append([0, nm, n, rng.choice(SEAMS[nm])])
                    else:
                        for t, st in (pick_hot(rng, first) if scn['proc'].get('svd_limit') and rng.random() < .6 else pick_points(rng, first if rng.random() < .8 else r['lines'], 1)): s['faults'].append([t, st, rng.choice(KINDS if rng.random() < .7 else ['interrupt'])])
                r2 = history.run_history(s); add(r2)
                if r2['violation']: out['violation'] = r2['violation']; out['concrete'] = s; break
                out['sample'] = dict(history='; '.join(history.describe_op(op, r2['world']) for op in scn['clients'][0][:3])[:300], faults=[f'{f[2]} at {f[3]}:{f[4]} (step {f[1]})' for f in r2['fired']])
    out['sigs'] = sorted(out['sigs'])
    return out
axes, simplify, valid = history_axes, simplify_history, valid_history
