"""Which matrices belong to a group, decided by its defining equations (not by its generators)."""
import numpy as np, oracle
from functools import lru_cache
import json

def finite_elements(spec, limit=400):
    """all elements of a finite group given by matrices of the reference model, or None"""
    return _finite(json.dumps(spec), limit)
@lru_cache(maxsize=None)
def _finite(js, limit):
    d, lie, dis = oracle.group(json.loads(js))
    if lie or any(np.abs(h @ h.T - np.eye(d)).max() > 1e-6 for h in dis): return None # (not known to be finite)
    key = lambda m: tuple(np.rint(m.real * 1e4).astype(int).ravel())
    seen = {key(np.eye(d)): np.eye(d)}; todo = [np.eye(d)]
    while todo:
        g = todo.pop()
        for h in dis:
            x = h @ g; k = key(x + 0.)
            if k not in seen:
                seen[k] = x; todo.append(x)
                if len(seen) > limit: return None
    return np.array(list(seen.values()))

def is_perm_matrix(M, tol=1e-3):
    R = np.rint(M.real)
    return np.abs(M - R).max() < tol and (R >= 0).all() and (R.sum(0) == 1).all() and (R.sum(1) == 1).all()

def rubik_legal(M):
    """a permutation of the 48 facelets that face turns can produce (cubies, orientations and parities)"""
    if not is_perm_matrix(M): return 'not a permutation of the facelets'
    to = np.argmax(M.real, 0)   # facelet j goes to place to[j]
    F = oracle.FACELETS
    cub = {}
    for i, (pos, n) in enumerate(F): cub.setdefault(pos, []).append(i)
    mats = _rotations()
    perm = {}; corner_twist = 0; edge_flip = 0
    for pos, ids in cub.items():
        dest = {F[to[i]][0] for i in ids}
        if len(dest) != 1: return 'a cubie is torn apart'
        dest = dest.pop(); perm[pos] = dest
        if len(cub[dest]) != len(ids): return 'a corner where an edge belongs'
        if len(ids) == 3:
            # chirality: the stickers must arrive by a rotation that takes the cubie there
            ok = False
            for R in mats:
                if tuple(R @ np.array(pos)) == dest and all(tuple(R @ np.array(F[i][1])) == F[to[i]][1] for i in ids): ok = True
            if not ok: return 'a mirrored corner'
            # orientation: position of the U/D coloured sticker counted clockwise from the U/D side of its place
            i = next(i for i in ids if F[i][1][2] != 0)
            corner_twist += _clockwise(dest).index(F[to[i]][1])
        else:
            edge_flip += _edge_orientation(pos, F[ids[0]][1]) ^ _edge_orientation(dest, F[to[ids[0]]][1])
    par = lambda k: _parity({p: q for p, q in perm.items() if len(cub[p]) == k})
    if corner_twist % 3: return 'corner orientations do not add up'
    if edge_flip % 2: return 'edge orientations do not add up'
    if par(3) != par(2): return 'parity of corners and edges differ'
    return None
@lru_cache(maxsize=None)
def _rotations():
    out = [np.eye(3, dtype=int)]; keys = {out[0].tobytes()}
    gens = [oracle._rotation(a) for a in ((1, 0, 0), (0, 1, 0))]
    for m in out:
        for g in gens:
            x = g @ m
            if x.tobytes() not in keys: keys.add(x.tobytes()); out.append(x)
    return out
def _clockwise(pos):
    """the three faces of a corner place in clockwise order seen from outside, starting with U/D"""
    fs = [tuple(np.eye(3, dtype=int)[a] * pos[a]) for a in range(3)]
    z, rest = fs[2], fs[:2]
    if np.dot(np.cross(z, rest[0]), pos) * np.dot(np.cross(rest[0], rest[1]), pos) < 0: pass
    # order such that (f0,f1,f2) has negative determinant: clockwise from outside
    a = [z, rest[0], rest[1]]
    if np.linalg.det(np.array(a)) > 0: a = [z, rest[1], rest[0]]
    return a
def _edge_orientation(pos, normal):
    """0 if this is the reference sticker of the edge place: the U/D side, else the F/B side"""
    ref = (0, 0, pos[2]) if pos[2] else (0, pos[1], 0)
    return 0 if tuple(normal) == ref else 1
def _parity(p):
    seen = set(); odd = 0
    for a in p:
        if a in seen: continue
        n = 0; x = a
        while x not in seen: seen.add(x); x = p[x]; n += 1
        odd ^= (n - 1) & 1
    return odd

def why_not(spec, g, tol=2e-4):
    """None if g is an element of the group, else the equation it breaks"""
    g = np.asarray(g); k, a = spec[0], spec[1:]
    d = oracle.group(spec)[0]
    if g.shape != (d, d): return f'shape {g.shape}'
    if not np.isfinite(g).all(): return 'not finite'
    g = g.astype(complex if np.iscomplexobj(g) else float)
    if np.iscomplexobj(g) and not oracle.is_complex(spec):
        if np.abs(g.imag).max() > tol: return 'not real'
        g = g.real
    nrm = max(1., np.abs(g).sum(1).max()); eye = np.eye(d)
    def det_is(v, M=g):
        n = len(M); return abs(np.linalg.det(M) - v) < tol * nrm ** min(n, 4) * 3
    def form(J, herm=False): return np.abs((g.conj() if herm else g).T @ J @ g - J).max() < 5 * tol * nrm ** 2
    def orth(): return form(eye)
    if k == 'Trivial': return None if np.abs(g - eye).max() < tol else 'not the identity'
    if k == 'SO': return None if orth() and det_is(1) else 'not a rotation'
    if k == 'O': return None if orth() else 'not orthogonal'
    if k == 'Scaling': return None if np.abs(g - g[0, 0] * eye).max() < tol * nrm and g[0, 0] > 0 else 'not a positive multiple of the identity'
    if k in ('SO13p', 'SO13', 'O13', 'Lorentz'):
        if not form(np.diag([1., -1, -1, -1])): return 'does not preserve the Minkowski metric'
        if nrm > 60: return None # (rounding hides the component)
        if k == 'SO13p' and g[0, 0] < 0: return 'reverses time'
        if k in ('SO13p', 'SO13') and np.linalg.det(g) < 0: return 'has determinant -1'
        return None
    if k in ('SO11p', 'O11'):
        if not form(np.diag([1., -1])): return 'does not preserve the Minkowski metric'
        if k == 'SO11p' and not (g[0, 0] > 0 and g[1, 1] > 0): return 'not in the identity component'
        return None
    if k == 'Sp':
        m = a[0]; J = np.zeros((d, d)); J[:m, m:] = np.eye(m); J[m:, :m] = -np.eye(m)
        return None if form(J) else 'not symplectic'
    if k == 'SL': return None if det_is(1) else 'determinant is not 1'
    if k == 'GL': return None if np.linalg.matrix_rank(g) == d else 'not invertible'
    if k in ('U', 'SU'):
        if not form(eye, True): return 'not unitary'
        return None if k == 'U' or abs(np.linalg.det(g) - 1) < 20 * tol else 'determinant is not 1'
    if k == 'S': return None if is_perm_matrix(g) else 'not a permutation'
    if k == 'RubiksCube': return rubik_legal(g)
    if k in ('SO2eR3', 'O2eR3', 'DkeR3'):
        return why_not(['Embed', {'SO2eR3': ['SO', 2], 'O2eR3': ['O', 2], 'DkeR3': ['D', (a or [0])[0]]}[k], 3, [0, 2, 1]], g, tol)
    if k == 'Embed':
        ix = np.arange(d)[slice(*a[2])]; rest = [i for i in range(d) if i not in ix]
        h = g.copy(); h[np.ix_(ix, ix)] = eye[np.ix_(ix, ix)]
        if np.abs(h - eye).max() > tol * nrm: return 'acts outside of the embedded dimensions'
        return why_not(a[0], g[np.ix_(ix, ix)], tol)
    if k == 'prod':
        d1, d2 = oracle.group(a[0])[0], oracle.group(a[1])[0]
        R = g.reshape(d1, d2, d1, d2).transpose(0, 2, 1, 3).reshape(d1 * d1, d2 * d2)
        u, s, vt = np.linalg.svd(R)
        if len(s) > 1 and s[1] > 20 * tol * max(1, s[0]): return 'not a Kronecker product'
        A, B = (u[:, 0] * s[0]).reshape(d1, d1), vt[0].reshape(d2, d2)
        why = None
        for c in _scales(a[0], A) + _scales(a[1], B, True):
            for sg in (1, -1):
                why = why_not(a[0], sg * c * A, 20 * tol) or why_not(a[1], B * sg / c, 20 * tol)
                if why is None: return None
        return why
    fin = finite_elements(spec)
    if fin is not None: return None if np.abs(fin - g).max((1, 2)).min() < 5 * tol else 'not one of the elements of the finite group'
    return None # (a group of the user's own)
def _scales(spec, A, inv=False):
    dt = abs(np.linalg.det(A)) ** (1 / len(A))
    if dt < 1e-9: return [1.]
    return [dt if inv else 1 / dt]

def kinds_reached(spec, gs):
    """a list of what a set of samples fails to exercise"""
    gs = np.asarray(gs); gs = gs.astype(complex if np.iscomplexobj(gs) else float); k, a = spec[0], spec[1:]
    missing = []
    fin = finite_elements(spec, 60)
    if fin is not None:
        hit = {int(np.abs(fin - g).max((1, 2)).argmin()) for g in gs}
        if len(hit) < len(fin): missing.append(f'{len(fin) - len(hit)} of the {len(fin)} elements of the group')
        return missing
    ok = np.abs(gs).sum(2).max(1) < 60
    g = gs[ok] if ok.sum() > 20 else gs
    det = np.linalg.det(g).real
    if k == 'O' and not ((det > 0).any() and (det < 0).any()): missing.append('a component (sign of the determinant)')
    if k in ('O13', 'Lorentz', 'SO13'):
        comps = {(x > 0, y > 0) for x, y in zip(det, g[:, 0, 0].real)}
        if len(comps) < (4 if k != 'SO13' else 2): missing.append(f'components (only {len(comps)})')
    if k == 'O11' and len({(x > 0, y > 0) for x, y in zip(det, g[:, 0, 0].real)}) < 4: missing.append('components')
    if k == 'S' and a[0] > 1:
        P = np.rint(g.real)
        if (P.sum(0) == 0).any(): missing.append('places that some axis is never moved to')
    # directions: the samples span the same space of matrices as random elements of the reference model
    rng = np.random.default_rng(0)
    ref = np.array([oracle.element(spec, rng, words=12) for _ in range(min(4 * gs.shape[1] ** 2 + 20, 1200))]) if gs.shape[1] <= 12 else None
    if ref is not None:
        def span(X):
            X = X.reshape(len(X), -1); X = X / np.abs(X).max(1, keepdims=True)
            s = np.linalg.svd(X / np.sqrt(len(X)), compute_uv=False); return int((s > 2e-3).sum())
        s1, s0 = span(g), span(ref)
        if s1 < s0: missing.append(f'directions (samples span {s1} dimensions of matrices, the group spans {s0})')
    return missing
