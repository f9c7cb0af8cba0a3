import random
from .common import *
COUNTS = {'quick': 110, 'thorough': 2600}
RULE = ('A case is one simulated process in which 2 to 4 client threads run overlapping queries (equal, reordered, and different ones, on shared and separately built objects) under one schedule, which decides at every executed line of the '
        'library which client goes on. Switch points are taken evenly from the distinct lines executed by a serial run; each answer is compared with the reference, and all clients must finish. '
        'Non-trivial: at least one switch away from a client that was in the middle of an operation; counted once per distinct sequence of (client, code step, next client) switches.')
MEASURE = 'distinct interleavings (sequences of switches that took place)'
ASSUMPTIONS = ['threads are switched at line boundaries of the library (and at its lock operations), not within a line or within jax, numpy or plum']
TIMEOUT = 240
def generate(rng, i, tier):
    import history
    specs = history.random_specs(rng, rng.randint(1, 3))
    n = rng.choice([2, 2, 2, 3, 4])
    pool = []
    setup = [op for op in history.random_ops(rng, specs, 3, cap=20, maxg=2, pool=pool) if op[0] == 'R']
    if rng.random() < .5: pool.clear()
    clients = [[op for op in history.random_ops(rng, specs, rng.randint(1, 4), cap=rng.choice([12, 30, 60]), maxg=3, layers=.1, pool=pool, weights=(6, 3, 1, 3, 1, 2))] for _ in range(n)]
    if rng.random() < .4: # the same questions by everyone, in another order
        for t in range(1, n):
            clients[t] = list(clients[0])
            if rng.random() < .5 and not any(op[0] == 'R' for op in clients[t]): rng.shuffle(clients[t])
    if setup:
        for c in clients:
            for _ in range(2): c.append(['Q', rng.choice(['basis', 'proj', 'rho', 'size']), ['ref', rng.choice(setup)[1]]])
    extra = dict(warm=history.warmup(rng)) if rng.random() < .25 else {}
    return dict(extra, specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), setup=setup + [['regroup', g] for g in range(len(specs)) if rng.random() < .7], clients=clients, plain=rng.random() < .7,
                plan=dict(k=(4 if extra else 8) if tier == 'quick' else 14, seed=rng.randrange(1 << 30)))
def execute(scn):
    import history
    plan = scn.get('plan')
    out = dict(violation=None, evals=0, sigs=set(), simtime=0., faults={}, stats=dict(runs=0, operations=0, switches=0, scheduling_points=0))
    def add(s, r):
        out['evals'] += 1; out['simtime'] += r['simtime']
        st = out['stats']; st['runs'] += 1; st['operations'] += r['ops']; st['switches'] += len(r['switches']); st['scheduling_points'] += r['total']
        if r['switches']: out['sigs'].add(sha([scn['specs'], scn['clients'], r['switches']]))
    if plan is None:
        r = history.run_history(scn); add(scn, r); out['violation'] = r['violation']
    else:
        base = {k: v for k, v in scn.items() if k != 'plan'}
        r = history.run_history(base, profile=True); add(base, r)
        if r['violation']: out['violation'] = r['violation']; out['concrete'] = base
        else:
            rng = random.Random(plan['seed']); n = len(scn['clients'])
            for j in range(plan['k']):
                s = dict(base); pre = {}
                if j % 4 == 3: # many switches: every few lines
                    gap = rng.choice([2, 5, 15, 60]); hi = [c for c in r['steps']]
                    for t in range(n):
                        x = rng.randrange(max(1, hi[t]))
                        for _ in range(rng.randint(10, 60)):
                            x += rng.randint(1, 2 * gap)
                            pre[(t, x)] = rng.randrange(n)
                else:
                    for _ in range(rng.choice([1, 2, 3, 5])):
                        for t, st in pick_points(rng, r['lines'], 1): pre[(t, st)] = rng.choice([u for u in range(n) if u != t])
                s['preempt'] = [[a, b, c] for (a, b), c in sorted(pre.items())]
                r2 = history.run_history(s); add(s, r2)
                if r2['violation']: out['violation'] = r2['violation']; out['concrete'] = s; break
                out['sample'] = dict(clients=[[history.describe_op(op, r2['world'])[:120] for op in c[:2]] for c in scn['clients']], switches=[f'client {a} at step {b} -> client {c}' for a, b, c in r2['switches'][:6]])
    out['sigs'] = sorted(out['sigs'])
    return out
axes, simplify, valid = history_axes, simplify_history, valid_history
