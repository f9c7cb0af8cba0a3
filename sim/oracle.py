"""Reference model: groups as explicit generator matrices, representations as expressions, in float64.

Independent of the code in /repo: everything is computed from the definition with dense numpy matrices."""
import numpy as np, itertools, json
from functools import lru_cache

def E(n, i, j):
    m = np.zeros((n, n)); m[i, j] = 1; return m
def perm_matrix(p):
    """ v -> v[p] """
    return np.eye(len(p))[list(p)]
def shift(n):
    return perm_matrix([(i - 1) % n for i in range(n)])
def kron(*Ms):
    out = np.eye(1)
    for m in Ms: out = np.kron(out, m)
    return out

# ------------------------------------------------------------------ groups: spec -> (d, lie, discrete)
def _so(n): return [E(n, i, j) - E(n, j, i) for i in range(n) for j in range(i)]
def _refl(n):
    m = np.eye(n); m[0, 0] = -1; return m
def _boosts(n, space): return [E(n, 0, i) + E(n, i, 0) for i in space]
def _lor():
    rot = []
    for m in _so(3):
        z = np.zeros((4, 4)); z[1:, 1:] = m; rot.append(z)
    return _boosts(4, (1, 2, 3)) + rot
def _rot2(t): return np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
_P4 = np.diag([1., -1, -1, -1]); _T4 = np.diag([-1., 1, 1, 1])

FACES = {'U': (0, 0, 1), 'F': (0, -1, 0), 'R': (1, 0, 0), 'B': (0, 1, 0), 'L': (-1, 0, 0), 'D': (0, 0, -1)}
ORDER = 'UFRBLD'
def _rotation(axis, k=1):
    """quarter turn about axis as an integer matrix"""
    a = np.array(axis); K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    R = np.rint(np.eye(3) + K + K @ K).astype(int)
    return np.linalg.matrix_power(R, k % 4)
def cube_faces_group():
    """the rotations of the cube acting on its six faces"""
    dirs = [FACES[c] for c in ORDER]
    return [perm_matrix([dirs.index(tuple(R @ np.array(d))) for d in dirs]) for R in (_rotation((0, 1, 0)), _rotation((1, 0, 0)))]

def _facelets():
    """Coordinates of the 48 facelets, (sticker position, face direction), faces U,F,R,B,L,D, read row by row
    as they appear in the unfolded net with U in the middle: B above it, L and R beside it, F and D below."""
    # for each face: its outward normal, direction of increasing column, direction of increasing row,
    # such that turning the whole cube about the vertical axis permutes F, R, B, L
    out = []
    frames = {'U': ((0, 0, 1), (1, 0, 0), (0, -1, 0)), 'F': ((0, -1, 0), (1, 0, 0), (0, 0, -1)),
              'R': ((1, 0, 0), (0, 1, 0), (0, 0, -1)), 'B': ((0, 1, 0), (-1, 0, 0), (0, 0, -1)),
              'L': ((-1, 0, 0), (0, -1, 0), (0, 0, -1)), 'D': ((0, 0, -1), (1, 0, 0), (0, 1, 0))}
    for f in ORDER:
        n, c, r = (np.array(x) for x in frames[f])
        for i in (-1, 0, 1):
            for j in (-1, 0, 1):
                if i == j == 0: continue
                out.append((tuple(n + i * r + j * c), tuple(n)))
    return out
FACELETS = _facelets()
def rubiks_moves():
    idx = {f: i for i, f in enumerate(FACELETS)}
    gens = []
    for f in ORDER:
        a = np.array(FACES[f]); R = _rotation(a)
        p = []
        for pos, n in FACELETS:
            if np.dot(pos, a) == 1: pos, n = tuple(R @ np.array(pos)), tuple(R @ np.array(n))
            p.append(idx[(pos, n)])
        gens.append(p)
    return gens

def group(spec):
    """-> (d, list of Lie algebra generators, list of discrete generators)"""
    return _group(json.dumps(spec))
@lru_cache(maxsize=None)
def _group(js):
    spec = json.loads(js)
    d, lie, dis = _mk(spec)
    return d, [np.array(a) for a in lie], [np.array(h) for h in dis]
def _mk(spec):
    k, a = spec[0], spec[1:]
    if k == 'Trivial': return a[0], [], []
    if k == 'SO': return a[0], _so(a[0]), []
    if k == 'O': return a[0], _so(a[0]), [_refl(a[0])]
    if k == 'C': return 2, [], [_rot2(2 * np.pi / a[0])]
    if k == 'D': return 2, [], [_rot2(2 * np.pi / a[0]), np.diag([-1., 1])]
    if k == 'Scaling': return a[0], [np.eye(a[0])], []
    if k == 'Parity': return 4, [], [_P4]
    if k == 'TimeReversal': return 4, [], [_T4]
    if k == 'SO13p': return 4, _lor(), []
    if k == 'SO13': return 4, _lor(), [-np.eye(4)]
    if k in ('O13', 'Lorentz'): return 4, _lor(), [-np.eye(4), _T4]
    if k == 'SO11p': return 2, _boosts(2, (1,)), []
    if k == 'O11': return 2, _boosts(2, (1,)), [-np.eye(2), np.diag([-1., 1])]
    if k == 'Sp':
        m = a[0]; n = 2 * m; lie = []
        for i in range(m):
            for j in range(m): lie.append(E(n, i, j) - E(n, m + j, m + i))
            for j in range(i + 1):
                s = E(m, i, j) + E(m, j, i)
                lie.append(np.block([[np.zeros((m, m)), s], [np.zeros((m, 2 * m))]]))
                lie.append(np.block([[np.zeros((m, 2 * m))], [s, np.zeros((m, m))]]))
        return n, lie, []
    if k == 'Z': return a[0], [], [shift(a[0])]
    if k == 'S':
        n = a[0]
        return n, [], [perm_matrix([{0: i, i: 0}.get(j, j) for j in range(n)]) for i in range(1, n)]
    if k == 'SL':
        n = a[0]
        return n, [E(n, i, j) for i in range(n) for j in range(n) if i != j] + [E(n, i, i) - E(n, n - 1, n - 1) for i in range(n - 1)], []
    if k == 'GL':
        n = a[0]; return n, [E(n, i, j) for i in range(n) for j in range(n)], []
    if k in ('U', 'SU'):
        n = a[0]
        lie = _so(n) + [1j * (E(n, i, j) + E(n, j, i)) for i in range(n) for j in range(i)]
        lie += [1j * E(n, i, i) for i in range(n)] if k == 'U' else [1j * (E(n, i, i) - E(n, n - 1, n - 1)) for i in range(n - 1)]
        return n, [x.astype(complex) for x in lie], []
    if k == 'Cube': return 6, [], cube_faces_group()
    if k == 'RubiksCube': return 48, [], [perm_matrix(p) for p in rubiks_moves()]
    if k == 'ZksZnxZn':
        kk, n = a
        r = np.rot90(np.arange(n * n).reshape(n, n), 4 // kk).reshape(-1)
        return kk * n * n, [], [kron(np.eye(kk), shift(n), np.eye(n)), kron(np.eye(kk), np.eye(n), shift(n)),
                                kron(shift(kk), perm_matrix(r))]
    if k == 'SO2eR3': return _mk(['Embed', ['SO', 2], 3, [0, 2, 1]])
    if k == 'O2eR3': return _mk(['Embed', ['O', 2], 3, [0, 2, 1]])
    if k == 'DkeR3': return _mk(['Embed', ['D', a[0]], 3, [0, 2, 1]])
    if k == 'Embed':
        d0, lie, dis = _mk(a[0]); d = a[1]; ix = np.arange(d)[slice(*a[2])]
        L, D = [], []
        for m in lie:
            z = np.zeros((d, d), m.dtype); z[np.ix_(ix, ix)] = m; L.append(z)
        for m in dis:
            z = np.eye(d); z[np.ix_(ix, ix)] = m; D.append(z)
        return d, L, D
    if k == 'prod':
        d1, l1, h1 = _mk(a[0]); d2, l2, h2 = _mk(a[1])
        return d1 * d2, [np.kron(m, np.eye(d2)) for m in l1] + [np.kron(np.eye(d1), m) for m in l2], \
               [np.kron(m, np.eye(d2)) for m in h1] + [np.kron(np.eye(d1), m) for m in h2]
    if k == 'user': # ['user', class name, args, lie, discrete]
        l, h = [lazy_gen(m) for m in a[2]], [lazy_gen(m) for m in a[3]]
        return len((l + h)[0]), l, h
    raise KeyError(k)

def lazy_gen(m):
    """a generator given as rows, or as an expression in the library's lazy operators"""
    k = m[0]
    if not isinstance(k, str): return np.array(m, float)
    if k == 'shift': return np.linalg.matrix_power(shift(m[1]), m[2])
    if k == 'perm': return perm_matrix(m[1])
    if k == 'mat': return np.array(m[1], float)
    if k == 'scale': return m[1] * lazy_gen(m[2])
    if k == 'kron': return kron(*map(lazy_gen, m[1:]))
    if k == 'kronsum':
        A, B = map(lazy_gen, m[1:]); return np.kron(A, np.eye(len(B))) + np.kron(np.eye(len(A)), B)
    if k == 'add': return lazy_gen(m[1]) + lazy_gen(m[2])
    if k == 'mulop': return lazy_gen(m[1]) @ lazy_gen(m[2])
    if k == 'id': return np.eye(m[1])
    raise KeyError(k)

def is_orthogonal(spec):
    d, lie, dis = group(spec)
    return all(np.abs(a + a.T).max() < 1e-9 for a in lie) and all(np.abs(h.T @ h - np.eye(d)).max() < 1e-9 for h in dis)
def is_permutation(spec):
    d, lie, dis = group(spec)
    return not lie and all((np.abs(np.rint(h) - h) < 1e-9).all() and ((h > .5).sum(0) == 1).all() and ((h > .5).sum(1) == 1).all() and (h > -.5).all() for h in dis)
def is_complex(spec): return any(np.iscomplexobj(a) for a in group(spec)[1])

def expm(A):
    A = np.asarray(A); n = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(A).sum(1).max())))) + 6)
    B = A / 2.0 ** n; out = np.eye(len(A), dtype=B.dtype); t = out
    for k in range(1, 14): t = t @ B / k; out = out + t
    for _ in range(n): out = out @ out
    return out

def element(spec, rng, scale=.5, words=4):
    """a random element of the group (float64)"""
    d, lie, dis = group(spec)
    g = np.eye(d)
    if lie: g = g @ expm(sum(scale * rng.standard_normal() * a for a in lie) / np.sqrt(len(lie)) * 1.5)
    for _ in range(words if dis else 0):
        h = dis[rng.integers(len(dis))]
        g = g @ (h if rng.integers(2) else np.linalg.inv(h))
    if lie and dis: g = g @ expm(sum(scale * rng.standard_normal() * a for a in lie) / np.sqrt(len(lie)) * 1.5)
    return g
def algebra(spec, rng):
    """a random Lie algebra element; for a discrete group any matrix that its representations make sense for"""
    d, lie, dis = group(spec)
    if lie: return sum(rng.standard_normal() * a for a in lie)
    A = rng.standard_normal((d, d))
    return A - A.T if is_orthogonal(spec) else A

# ------------------------------------------------------------------ representations
# ['S'] | ['V', g] | ['dual', e] | ['sum', e...] | ['mul', n, e] | ['prod', e...] | ['custom', kind, g]
def size(e, dims):
    k = e[0]
    if k == 'S': return 1
    if k == 'V': return dims[e[1]]
    if k == 'dual': return size(e[1], dims)
    if k == 'sum': return sum(size(x, dims) for x in e[1:])
    if k == 'mul': return e[1] * size(e[2], dims)
    if k == 'prod': return int(np.prod([size(x, dims) for x in e[1:]]))
    if k == 'custom':
        return {'det': 1, 'ad': dims[e[2]] ** 2, 'twice': 2 * dims[e[2]]}[e[1]]
    raise KeyError(k)
def _dsum(Ms):
    n = sum(len(m) for m in Ms)
    out = np.zeros((n, n), np.result_type(float, *Ms)); i = 0
    for m in Ms: out[i:i + len(m), i:i + len(m)] = m; i += len(m)
    return out
def rho(e, g):
    k = e[0]
    if k == 'S': return np.eye(1)
    if k == 'V': return g[e[1]]
    if k == 'dual': return np.linalg.inv(rho(e[1], g)).T
    if k == 'sum': return _dsum([rho(x, g) for x in e[1:]])
    if k == 'mul': return _dsum([rho(e[2], g)] * e[1])
    if k == 'prod': return kron(*[rho(x, g) for x in e[1:]])
    if k == 'custom':
        M = g[e[2]]
        return {'det': lambda: np.linalg.det(M).reshape(1, 1), 'ad': lambda: np.kron(M, np.linalg.inv(M).T), 'twice': lambda: _dsum([M, M])}[e[1]]()
def drho(e, A):
    k = e[0]
    if k == 'S': return np.zeros((1, 1))
    if k == 'V': return A[e[1]]
    if k == 'dual': return -drho(e[1], A).T
    if k == 'sum': return _dsum([drho(x, A) for x in e[1:]])
    if k == 'mul': return _dsum([drho(e[2], A)] * e[1])
    if k == 'prod':
        Ms = [drho(x, A) for x in e[1:]]
        return sum(kron(*[m if i == j else np.eye(len(o)) for j, o in enumerate(Ms)]) for i, m in enumerate(Ms))
    if k == 'custom':
        M = A[e[2]]; I = np.eye(len(M))
        return {'det': lambda: np.trace(M).reshape(1, 1), 'ad': lambda: np.kron(M, I) - np.kron(I, M.T), 'twice': lambda: _dsum([M, M])}[e[1]]()

def groups_of(e):
    k = e[0]
    if k == 'S': return []
    if k == 'V': return [e[1]]
    if k == 'custom': return [e[2]]
    out = []
    for x in e[1:]:
        if isinstance(x, list):
            for g in groups_of(x):
                if g not in out: out.append(g)
    return out

class IllConditioned(Exception): pass
_cache = {}
_spec = {}
def spectrum(e, specs):
    """singular values of the constraints"""
    fixed_space(e, specs)
    key = json.dumps([e, [[g, specs[g]] for g in groups_of(e)]])
    if key not in _spec: _cache.clear(); fixed_space(e, specs)
    return _spec[key]
def fixed_space(e, specs):
    """-> (rank, projector) of the vectors fixed by the group, float64. specs: group index -> spec"""
    gs = groups_of(e)
    key = json.dumps([e, [[g, specs[g]] for g in gs]])
    if key in _cache: return _cache[key]
    dims = {g: group(specs[g])[0] for g in gs}
    n = size(e, dims)
    gram = np.zeros((n, n), complex if any(is_complex(specs[g]) for g in gs) else float)
    for g in gs:
        d, lie, dis = group(specs[g])
        for h in dis:
            C = rho(e, {o: (h if o == g else np.eye(dims[o])) for o in gs}) - np.eye(n); gram = gram + C.conj().T @ C
        for a in lie:
            C = drho(e, {o: (a if o == g else np.zeros((dims[o], dims[o]))) for o in gs}); gram = gram + C.conj().T @ C
    w, U = np.linalg.eigh(gram)
    null = w < 1e-9 * max(1, w[-1] if n else 1)
    r = int(null.sum())
    # the float32 solver tells zero from nonzero singular values at an absolute 1e-5; stay clear of its blind spot
    gap = np.sqrt(max(w[r], 0)) if r < n else np.inf
    top = np.sqrt(max(w[-1], 0)) if n else 0
    if gap < max(3e-3, 2e-4 * top): raise IllConditioned(f'{gap} {top}')
    Q = U[:, :r]
    if len(_cache) > 4000: _cache.clear()
    _spec[key] = np.sqrt(np.maximum(w, 0))
    _cache[key] = (r, Q @ Q.conj().T)
    return _cache[key]
