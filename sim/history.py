"""Histories of client operations on shared representation state: the engine of C01, C02, C03, C06, C07."""
import random, traceback, sys, zlib
import core, gen, oracle
from world import World, Env, Violation, do_op, show, gname

def where(e):
    """innermost frame of /repo in a traceback"""
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(core.REPO_PREFIXES)]
    return f'{fr[-1].name}' if fr else (tb[-1].name if tb else '?')

def run_history(scn, profile=False, op_hook=None, start_hook=None):
    """Runs scn = {specs, proc, setup:[ops], clients:[[ops]], preempt, faults, seamfaults}.
    -> dict(violation=None|{kind,msg}, ...)"""
    world = World(scn['specs'], **scn['proc'])
    root = Env(world); root.plain = scn.get('plain', True)
    if start_hook is not None: start_hook(world, root)
    out = {'violation': None, 'world': world, 'ops': 0, 'failed_ops': 0, 'events': []}
    sched = core.Sched(scn.get('preempt', ()), scn.get('faults', ()), scn.get('seamfaults', ()), profile=profile)
    viol = []

    def run_ops(c, env, ops, tag):
        for i, op in enumerate(ops):
            if viol: return
            fired0 = len([f for f in sched.fired if f[0] == c.tid])
            c.marks.append((i, c.steps))
            try:
                while op[0] in ('R', 'RA'): # a definition that fails is made again
                    n = len(sched.fired)
                    try: chk = do_op(world, env, op, 0); break
                    except core.Abort: raise
                    except BaseException as e:
                        if len(sched.fired) == n: raise
                        out['failed_ops'] += 1
                else: chk = do_op(world, env, op, zlib.crc32(repr((scn['proc']['npseed'], op)).encode()))
            except core.Abort: raise
            except Violation as v:
                viol.append({'kind': v.kind, 'msg': f'{tag} op {i}: {v.msg}'}); return
            except BaseException as e:
                if len([f for f in sched.fired if f[0] == c.tid]) > fired0:
                    out['failed_ops'] += 1; out['events'].append((tag, i, 'failed', type(e).__name__)); continue
                if isinstance(e, core.SimError):
                    viol.append({'kind': 'blocked', 'msg': f'{tag} op {i}: {e}'}); return
                if type(e).__name__ == 'ConvergenceError' and scn['proc'].get('svd_limit'): # (a start that does not converge is C04's subject)
                    out['failed_ops'] += 1; out['events'].append((tag, i, 'not converged')); continue
                viol.append({'kind': 'error', 'msg': f'{tag} op {i} ({describe_op(op, world)}) raised {type(e).__name__}: {str(e)[:200]} in {where(e)}'}); return
            out['ops'] += 1
            if chk is not None:
                c.quiet += 1
                try: chk()
                except Violation as v:
                    viol.append({'kind': v.kind, 'msg': f'{tag} op {i}: {v.msg}'}); return
                finally: c.quiet -= 1
            out['events'].append((tag, i, op[0]))
            if op_hook is not None:
                c.quiet += 1
                try: op_hook(world, env, op, i)
                except Violation as v:
                    viol.append({'kind': v.kind, 'msg': f'{tag} op {i}: {v.msg}'}); return
                finally: c.quiet -= 1

    if scn.get('warm'): warm(world, scn['warm'])
    if scn.get('setup'):
        s0 = core.Sched()
        s0.fired = []
        (c0,) = s0.run([lambda c: run_ops(c, root, scn['setup'], 'setup')])
        if c0.exc is not None: raise c0.exc
        if s0.dead: viol.append({'kind': 'blocked', 'msg': 'setup: ' + s0.dead})
    if not viol:
        n = len(scn['clients'])
        envs = [Env(world, root) if n > 1 or scn.get('setup') else root for _ in range(n)]
        for e in envs: e.plain = root.plain
        cs = sched.run([(lambda ops, env, t: lambda c: run_ops(c, env, ops, f'client {t}'))(ops, env, t) for t, (ops, env) in enumerate(zip(scn['clients'], envs))])
        for c in cs:
            if c.exc is not None: raise core.HarnessError(f'client {c.tid}: {"".join(traceback.format_exception(c.exc))}')
        if sched.dead and not viol: viol.append({'kind': 'blocked', 'msg': sched.dead})
        out['steps'] = [c.steps for c in cs]; out['marks'] = [c.marks for c in cs]; out['calls'] = [dict(c.calls) for c in cs]
    out.update(violation=viol[0] if viol else None, fired=sched.fired, switches=sched.switches, lines=sched.lines,
               total=sched.total, simtime=sched.now - 1e9, locks=sched.locks)
    return out

def describe_op(op, world=None):
    if op[0] in ('R', 'RA'): return f'{op[1]} = {show(op[2], world)}'
    if op[0] == 'Q': return f'{op[1]} of {show(op[2], world)}'
    if op[0] == 'L': return f'Linear({show(op[1], world)}, {show(op[2], world)})'
    if op[0] == 'U': return f'{op[1]}({", ".join(show(x, world) for x in op[2:])})'
    if op[0] == 'N': return f'EMLP({show(op[1], world)}, {show(op[2], world)}, {gname(world.specs[op[3]]) if world else op[3]}, ch={op[4]})'
    if op[0] == 'BL': return f'bilinear({show(op[1], world)})'
    return repr(op)

def warmup(rng):
    """a process that has solved many problems before: about as many as a bounded cache could hold"""
    return max(1, rng.choice([4, 5, 8, 8, 10, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024]) - rng.choice([0, 0, 1, 1, 2, 3, 5]))
def warm(world, n):
    V = world.mods['reps'].V; G = world.mods['groups']
    class Warm(G.Group):
        def __init__(self, k): self.discrete_generators = -world_np().ones((1, 1, 1)); self.lie_algebra = world_np().zeros((0, 1, 1)); super().__init__(k)
    for k in range(n): V(Warm(k)).equivariant_basis()
def world_np():
    import numpy; return numpy

def random_ops(rng, specs, nops, depth=3, cap=120, custom=True, queries=('basis', 'proj', 'projvec', 'rho', 'drho', 'size'), weights=(6, 3, 2, 2, 1, 1), maxg=2, pool=None, layers=.0):
    dims = {i: oracle.group(s)[0] for i, s in enumerate(specs)}
    if custom is True: custom = ['complex'] + [i for i, s in enumerate(specs) if oracle.is_complex(s)]
    ops = []; names = []; norms = {}
    pool = pool if pool is not None else []
    for _ in range(nops):
        r = rng.random()
        if r < .08: ops.append(['regroup', rng.randrange(len(specs))]); continue
        if r < .12: ops.append(['bindscalar', rng.randrange(len(specs))]); continue
        if rng.random() < layers:
            if rng.random() < .5:
                a, b = (fresh_expr(rng, specs, dims, rng.randint(0, 2), 8, custom, 1) for _ in range(2)); ops.append(['L', a, b])
            else:
                g = rng.randrange(len(specs)); gs = [g]
                if oracle.is_complex(specs[g]): continue
                xs = [gen.expr(rng, gs, rng.randint(0, 1), dims, 20, False) for _ in range(rng.randint(1, 3))]
                ops.append(['BL', ['sum', ['V', g]] + [rng.choice([x, ['mul', rng.randint(1, 3), x]]) for x in xs]])
                if oracle.size(gen.norm(ops[-1][1]), dims) > 25: ops.pop()
            continue
        if r < .22:
            e = fresh_expr(rng, specs, dims, depth, cap, custom, maxg); v = f'r{len(names)}'
            ne = gen.norm(e, norms)
            names.append(v); norms[v] = ne; ops.append(['R', v, e]); continue
        if pool and rng.random() < .45: # something asked before, reordered or inside something larger
            e = rng.choice(pool)
            x = rng.random()
            if x < .5: e = gen.shuffle_expr(rng, e)
            elif x < .65: e = ['dual', e]
            elif x < .8: e = ['sum', e, gen.shuffle_expr(rng, e)]
        elif names and rng.random() < .35:
            v = rng.choice(names); e = ['ref', v]
            if rng.random() < .5:
                o = fresh_expr(rng, specs, dims, 1, 12, custom, 1)
                e = rng.choice([['sum', e, o], ['sum', o, e], ['prod', e, o], ['prod', o, e], ['lin', e, o], ['dual', e]])
        else: e = fresh_expr(rng, specs, dims, depth, cap, custom, maxg)
        if oracle.size(gen.norm(e, norms), dims) > cap: continue
        if not uses_ref(e): pool.append(e)
        ops.append(['Q', rng.choices(queries, weights)[0], e])
    return ops

def uses_ref(e): return e[0] == 'ref' or any(uses_ref(x) for x in e[1:] if isinstance(x, list))

def fresh_expr(rng, specs, dims, depth, cap, custom, maxg):
    gs = rng.sample(range(len(specs)), min(len(specs), rng.choice([1] * 3 + [2] * (maxg > 1) + [3] * (maxg > 2))))
    if any(dims[g] > 20 for g in gs): depth = 1
    return gen.expr(rng, gs, depth, dims, cap, custom)

def random_specs(rng, n, maxd=8, distinct=True):
    out = []
    for _ in range(200):
        if len(out) == n: break
        s = gen.group(rng, maxd)
        if s not in out: out.append(s)
        if rng.random() < .3 and len(out) < n: # a group that is easily confused with the last one
            t = sibling(rng, out[-1])
            if t is not None and t not in out and oracle.group(t)[0] <= maxd: out.append(t)
    return out

def sibling(rng, s):
    if s[0] == 'user':
        c = [u for u in gen.USERS if u[1] == s[1] and u != s] or [u for u in gen.USERS if u != s and oracle.group(u)[0] == oracle.group(s)[0]]
        return rng.choice(c) if c else None
    if s[0] == 'Embed':
        b, d, (st, en, k) = s[1:]
        if k == 1: return ['Embed', b, d, [st - 1, en - 1, 1]] if st > 0 else ['Embed', b, d + 1, [1, en + 1, 1]]
        return ['Embed', b, d, [0, en - st - 1, 1]] if en - st - 1 == oracle.group(b)[0] else None
    if s[0] == 'DkeR3': return ['DkeR3', rng.choice([k for k in range(1, 7) if k != s[1]])]
    if s[0] == 'ZksZnxZn': return ['ZksZnxZn', 6 - s[1], s[2]] if s[1] in (2, 4) else None
    if s[0] == 'prod': return ['prod', s[2], s[1]]
    if s[0] in ('SO', 'O', 'C', 'D', 'Z', 'S', 'SL', 'Scaling') and s[1] >= 2:
        c = [['SO', s[1]], ['O', s[1]], ['Z', s[1]], ['S', s[1]], ['SL', s[1]], ['Scaling', s[1]], [s[0], s[1] + 1]]
        if s[0] in 'CD': c = [['C', s[1]], ['D', s[1]], [s[0], s[1] + 1], [s[0], 10 * s[1] + 1], ['SO', 2], ['O', 2]]
        return rng.choice(c)
    if s[0].startswith(('SO1', 'O1', 'Lor')): return rng.choice([['SO13p'], ['SO13'], ['O13'], ['Lorentz']]) if s[0][-2:] != '11' and s[0] != 'SO11p' else rng.choice([['SO11p'], ['O11']])
    return None
