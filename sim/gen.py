"""Random groups, representation expressions and histories (pure functions of a random.Random)."""
import oracle, numpy as np

SMALL = [['SO', 2], ['SO', 3], ['O', 2], ['O', 3], ['C', 3], ['C', 4], ['D', 3], ['D', 4], ['Z', 2], ['Z', 3], ['S', 3], ['SL', 2],
         ['SO11p'], ['O11'], ['Sp', 1], ['Scaling', 2], ['GL', 2], ['Trivial', 2], ['SU', 2], ['U', 1]]
def _users():
    J = [[0, 1], [0, 0]]
    out = []
    # classes of the user, told apart by their name or by their arguments
    out.append(['user', 'Shear', [], [J], []])
    out.append(['user', 'Squeeze', [], [[[1, 0], [0, -1]]], []])
    out.append(['user', 'Klein', [], [], [[[-1, 0], [0, 1]], [[1, 0], [0, -1]]]])
    out.append(['user', 'Rot3', [3], [], [[[0, 0, 1], [1, 0, 0], [0, 1, 0]]]])
    out.append(['user', 'Helix', [1], [[[0, 1, 0], [-1, 0, 0], [0, 0, 0]]], []])
    out.append(['user', 'Helix', [2], [[[0, 0, 0], [0, 0, 1], [0, -1, 0]]], []])
    out.append(['user', 'Wt', [1, 2], [[[1, 0], [0, 2]]], []])
    out.append(['user', 'Wt', [2, 1], [[[2, 0], [0, 1]]], []])
    out.append(['user', 'Wt', [12], [[[1, 0], [0, -2]]], []])
    out.append(['user', 'SignPerm', ['a'], [], [[[0, -1], [1, 0]], [[-1, 0], [0, -1]]]])
    out.append(['user', 'SignPerm', ['b'], [], [[[0, 1], [1, 0]]]])
    out.append(['user', 'EuclidAff', [], [[[0, 0, 1], [0, 0, 0], [0, 0, 0]], [[0, 0, 0], [0, 0, 1], [0, 0, 0]]], []])
    # generators given by lazy operators
    out.append(['user', 'LzCyc', [4], [], [['shift', 4, 1]]])
    out.append(['user', 'LzNeg', [3], [], [['scale', -1., ['shift', 3, 1]]]])
    out.append(['user', 'LzGrow', [3], [], [['scale', 2., ['perm', [2, 0, 1]]]]])
    out.append(['user', 'LzKron', [], [], [['kron', ['shift', 2, 1], [[1, 1], [0, 1]]], ['kron', ['id', 2], ['shift', 2, 1]]]])
    out.append(['user', 'LzSum', [], [], [['add', ['mat', [[1, 0], [0, 1]]], ['scale', .5, ['shift', 2, 1]]]]])
    out.append(['user', 'LzProd', [], [], [['mulop', ['mat', [[2, 0, 0], [0, 1, 0], [0, 0, 1]]], ['perm', [1, 2, 0]]]]])
    out.append(['user', 'LzRot', [], [['kronsum', ['mat', [[0, 1], [-1, 0]]], ['mat', [[0, 1], [0, 0]]]]], [['perm', [1, 0, 3, 2]]]])
    return out
USERS = _users()
def group(rng, maxd=8, kinds='all'):
    r = rng.random()
    n = rng.randint
    def lib():
        return rng.choice([
            lambda: ['SO', n(2, 4)], lambda: ['O', n(2, 4)], lambda: ['C', n(1, 7)], lambda: ['D', n(1, 6)], lambda: ['Scaling', n(1, 3)],
            lambda: ['Parity'], lambda: ['TimeReversal'], lambda: ['SO13p'], lambda: ['SO13'], lambda: ['O13'], lambda: ['Lorentz'],
            lambda: ['SO11p'], lambda: ['O11'], lambda: ['Sp', n(1, 2)], lambda: ['Z', n(1, 6)], lambda: ['S', n(2, 5)], lambda: ['S', n(3, 4)],
            lambda: ['SL', n(2, 3)], lambda: ['GL', n(1, 2)], lambda: ['U', n(1, 2)], lambda: ['SU', n(2, 3)], lambda: ['Cube'],
            lambda: ['ZksZnxZn', rng.choice([2, 4]), n(2, 3)], lambda: ['Trivial', n(1, 4)], lambda: ['SO2eR3'], lambda: ['O2eR3'], lambda: ['DkeR3', n(1, 5)],
            lambda: ['RubiksCube']])()
    for _ in range(200):
        if r < .62: g = lib()
        elif r < .78: g = rng.choice(USERS)
        elif r < .9: # embeddings (of groups given by arrays)
            b = rng.choice([['SO', 2], ['O', 2], ['C', 3], ['C', 4], ['D', 3], ['SO', 3], ['SL', 2], ['SO11p'], ['Scaling', 2]])
            k = oracle.group(b)[0]; d = n(k, 5); st = n(0, d - k)
            sl = [st, st + k, 1]
            if k == 2 and d >= st + 3 and rng.random() < .3: sl = [st, st + 3, 2]
            g = ['Embed', b, d, sl]
        else:
            a, b = rng.choice(SMALL), rng.choice(SMALL)
            if oracle.is_complex(a) or oracle.is_complex(b): continue
            g = ['prod', a, b]
        if oracle.group(g)[0] <= maxd: return g
        r = rng.random()
    return ['SO', 3]

def expr(rng, gs, depth, dims=None, cap=200, custom=True, ints=True):
    """an expression over the group indices gs, in the vocabulary of the library"""
    for _ in range(60):
        e = _expr(rng, gs, depth, custom, ints)
        if e[0] in ('int',): continue
        if dims is None: return e
        s = oracle.size(norm(e), dims)
        if 0 < s <= cap: return e
    return ['V', gs[0]]
def _expr(rng, gs, depth, custom, ints):
    r = rng.random()
    rec = lambda: _expr(rng, gs, depth - 1, custom, False)
    if depth <= 0 or r < .2:
        x = rng.random()
        if x < .15: return ['S']
        if x < .22: return ['S1', rng.choice(gs)]
        if x < .28 and custom:
            g = rng.choice(gs) # (jax differentiates rho only along real directions)
            return ['custom', 'ad' if custom is not True and g in custom else rng.choice(['det', 'ad', 'twice']), g]
        if x < .4: return ['T', rng.randint(0, 2), rng.randint(0, 1), rng.choice(gs)]
        return ['V', rng.choice(gs)]
    if r < .3: return ['dual', rec()]
    if r < .52:
        xs = [rec() for _ in range(rng.randint(2, 3))]
        if ints and rng.random() < .2: xs.insert(rng.randint(0, len(xs)), ['int', rng.randint(1, 3)])
        return ['sum'] + xs
    if r < .6: return ['mul', rng.randint(1, 3), rec()]
    if r < .66: return ['pow', rec(), rng.randint(0, 3)]
    if r < .74: return ['lin', rec(), rec()]
    if r < .80: return ['nil', rec(), rec()]
    if r < .85: return ['def', _abstract(rng, depth), rng.choice(gs)]
    return ['prod'] + [rec() for _ in range(2 if rng.random() < .75 else 3)]
def _abstract(rng, depth):
    """an expression in V not yet bound to a group"""
    r = rng.random()
    rec = lambda: _abstract(rng, depth - 1)
    if depth <= 0 or r < .25: return rng.choice([['Vf'], ['Vf'], ['S']])
    if r < .4: return ['dual', rec()]
    if r < .65: return ['sum', rec(), rec()]
    if r < .75: return ['mul', rng.randint(1, 3), rec()]
    if r < .82: return ['pow', rec(), rng.randint(0, 2)]
    return ['prod', rec(), rec()]

def norm(e, env=None, bind=None):
    """the meaning of an expression in the terms of the reference model"""
    k = e[0]
    N = lambda x: norm(x, env, bind)
    if k == 'S' or k == 'S1': return ['S']
    if k == 'V': return e
    if k == 'Vf': return ['V', bind]
    if k == 'custom': return e
    if k == 'int': return ['mul', e[1], ['S']]
    if k == 'ref': return env[e[1]]
    if k == 'aref': return norm(env[e[1]], env, bind)
    if k == 'dual': return ['dual', N(e[1])]
    if k == 'sum': return ['sum'] + [N(x) for x in e[1:]]
    if k == 'mul': return ['mul', e[1], N(e[2])]
    if k == 'prod': return ['prod'] + [N(x) for x in e[1:]]
    if k == 'pow': return ['prod', ['S']] + [N(e[1])] * e[2]
    if k == 'lin': return ['prod', N(e[2]), ['dual', N(e[1])]]   # e1 >> e2
    if k == 'nil': return ['prod', N(e[1]), ['dual', N(e[2])]]   # e1 << e2
    if k == 'T': return ['prod', ['S']] + [['V', e[3]]] * e[1] + [['dual', ['V', e[3]]]] * e[2]
    if k == 'def': return norm(e[1], env, e[2])
    raise KeyError(k)

def shuffle_expr(rng, e):
    """a reordering of the summands and factors of an expression"""
    k = e[0]
    if k in ('sum', 'prod'):
        xs = [shuffle_expr(rng, x) for x in e[1:]]; rng.shuffle(xs)
        if xs[0][0] == 'int' and len(xs) > 1 and xs[1][0] == 'int': xs.sort(key=lambda x: x[0] == 'int')
        return [k] + xs
    if k == 'mul': return ['mul', e[1], shuffle_expr(rng, e[2])]
    if k in ('dual',): return ['dual', shuffle_expr(rng, e[1])]
    if k == 'pow': return ['pow', shuffle_expr(rng, e[1]), e[2]]
    if k in ('lin', 'nil'):
        return [rng.choice(['lin', 'nil']), shuffle_expr(rng, e[1]), shuffle_expr(rng, e[2])]
    return e
