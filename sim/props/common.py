"""Shared by the property modules. (Imports the simulator only inside execute(), the driver imports these modules too.)"""
import json, hashlib
REAL = ['all of emlp/ (groups, representations, linear operators, solvers) loaded from /repo at run time', 'jax, numpy, scipy, plum']
STUBS = ['thread scheduling, locks and clock (simulated)', 'string hash seed, hash() and id() as seen by the library (simulated)', 'process restart (fresh import of the library in the same interpreter)']
LEVEL = 'exploration'
def sha(o): return hashlib.sha1(json.dumps(o, sort_keys=True).encode()).hexdigest()[:12]

def uses(e):
    """names referenced by an expression"""
    out = set()
    if isinstance(e, list):
        if e and e[0] in ('ref', 'aref'): out.add(e[1])
        for x in e: out |= uses(x)
    return out
def valid_history(scn):
    """every name is defined before it is used"""
    base = set()
    for op in scn.get('setup') or []:
        if uses(op) - base: return False
        if op[0] in ('R', 'RA'): base.add(op[1])
    for ops in scn['clients']:
        have = set(base)
        for op in ops:
            if uses(op) - have: return False
            if op[0] in ('R', 'RA'): have.add(op[1])
    return True
def history_axes(scn):
    return [('clients', t) for t in range(len(scn['clients']))] + ([('setup',)] if scn.get('setup') else []) + \
           [(k,) for k in ('preempt', 'faults', 'seamfaults') if scn.get(k)]
def simplify_history(scn):
    """smaller expressions in single operations"""
    import copy
    for t, ops in enumerate(scn['clients']):
        for i, op in enumerate(ops):
            if op[0] not in ('R', 'Q'): continue
            for e in smaller(op[2]):
                c = copy.deepcopy(scn); c['clients'][t][i][2] = e; yield c
def smaller(e):
    if not isinstance(e, list) or e[0] in ('S', 'S1', 'V', 'Vf', 'int', 'ref', 'aref', 'custom', 'T', 'def'): return
    subs = [x for x in e[1:] if isinstance(x, list)]
    for x in subs:
        if x[0] != 'int': yield x
    if e[0] in ('sum', 'prod') and len(e) > 3:
        for i in range(1, len(e)):
            r = e[:i] + e[i + 1:]
            if r[1][0] != 'int': yield r
    for i, x in enumerate(e):
        if isinstance(x, list):
            for s in smaller(x): yield e[:i] + [s] + e[i + 1:]

def strata(lines, tid=None):
    """groups the executed steps of a profiled run by code line"""
    by = {}
    for t, step, fn, line in lines:
        if tid is None or t == tid: by.setdefault((fn, line), []).append((t, step))
    return by
def pick_points(rng, lines, k):
    """k executed steps, spread evenly over the distinct code lines and, for each line, over its executions"""
    by = strata(lines); keys = sorted(by); out = []
    if not keys: return out
    mut = {}
    for t, st, w in getattr(lines, 'mut', ()): mut.setdefault(w, []).append((t, st))
    for _ in range(k):
        if mut and rng.random() < .3: # next to a change of state that the whole process shares
            t, st = rng.choice(mut[rng.choice(sorted(mut))]); out.append((t, max(1, st + rng.choice([-3, -2, -1, 0, 0, 0, 1, 1, 2, 3, 5])))); continue
        ps = by[rng.choice(keys)]
        x = rng.random()
        out.append(ps[0] if x < .4 else ps[-1] if x < .5 else rng.choice(ps))
    return out

def pick_hot(rng, lines):
    """a late execution of a line of the hottest loops"""
    by = strata(lines); ks = sorted(k for k, v in by.items() if len(v) >= 20)
    if not ks: return pick_points(rng, lines, 1)
    top = max(len(by[k]) for k in ks)
    ps = by[rng.choice([k for k in ks if len(by[k]) * 4 >= top] if rng.random() < .5 else ks)]
    return [ps[min(len(ps) - 1, int(len(ps) * rng.choice([.5, .8, .95, .99, 1])))]]
