import random
from .common import *
COUNTS = {'quick': 260, 'thorough': 6000}
RULE = ('A case is one query of a simulated process with a random history of queries on random groups and representations (library groups, embeddings, products, user groups; confusable siblings on purpose). '
        'Each answer is compared with an independent float64 null space computation. Non-trivial: the process had answered other queries before (so cached solutions exist), counted once per distinct (set of representations asked before, representation asked).')
MEASURE = 'distinct (set of earlier solved representations, query) pairs'
ASSUMPTIONS = ['representations up to dimension 200 (48 for the Rubik group base representation)', 'single precision answers are compared with tolerance 2e-3',
               'problems whose own constraint spectrum is within a factor 30 of the solver cutoff 1e-5 are skipped']
def generate(rng, i, tier):
    import history
    n = rng.randint(1, 4)
    specs = history.random_specs(rng, n)
    big = i % 9 == 0
    ops = history.random_ops(rng, specs, rng.randint(4, 14 if tier == 'quick' else 24), cap=200 if big else rng.choice([12, 30, 60, 120]), maxg=3, layers=.08)
    extra = dict(warm=history.warmup(rng)) if rng.random() < .1 else {}
    return dict(extra, specs=specs, proc=dict(salt=rng.randrange(1 << 20), npseed=rng.randrange(1 << 20)), clients=[ops], plain=rng.random() < .7)
def execute(scn):
    import history, gen
    seen = []; sigs = set()
    def hook(world, env, op, i):
        if op[0] != 'Q': return
        k = sha([scn['specs'], gen.norm(op[2], env.norms)])
        if seen: sigs.add(sha([sorted(set(seen)), op[1], k]))
        if op[1] in ('basis', 'proj', 'projvec'): seen.append(k)
    r = history.run_history(scn, op_hook=hook)
    w = r['world']
    from world import show
    sample = '; '.join(history.describe_op(op, w) for op in scn['clients'][0][:4])[:600]
    return dict(violation=r['violation'], evals=w.checked, sigs=sorted(sigs), simtime=r['simtime'], stats=dict(runs=1, operations=r['ops'], skipped_ill_conditioned=w.skipped), sample=sample)
axes, simplify, valid = history_axes, simplify_history, valid_history
