"""Writes MANIFEST.json for the property modules that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
'C01': ('seeded simulation of query histories in a simulated process, each answer checked against an independent float64 reference model', 'Exact per query explored; histories, groups and representations are sampled. Trusts the reference model (dense generators, SVD in double precision).'),
'C02': ('fault injection: exceptions at executed lines and backend calls of simulated processes, history checked against the reference model', 'Fault points are sampled evenly over the distinct executed lines of each history; faults strike at line boundaries and backend calls.'),
'C03': ('deterministic scheduling of client threads at line granularity (seeded interleavings), every answer checked against the reference model, deadlock and progress detection', 'Interleavings are sampled, not enumerated; switches happen at line boundaries of the library and at locks.'),
'C04': ('simulation of the iterative solver with scripted random draws, forced divergence and memory limits; result or error checked against the reference null space', 'Problems are small ones pushed to the iterative path by lowered limits; draws are adversarial and random samples.'),
'C05': ('simulated random number generator scripts (typical, extreme, zero, repeated draws) driving group sampling; membership oracles per group', 'Membership is decided by independent defining equations per group in floating point tolerance.'),
'C06': ('seeded interleavings of client operations on shared objects with snapshots of every live object compared after each step', 'Objects are observed through size, str, rho, drho, hash and equality.'),
'C07': ('simulation of several processes with different hash seeds, addresses and creation orders, compared with the reference model and each other', 'hash() and id() are under control of the simulator; real string hash seeds differ between interpreters.'),
'C08': ('simulated crash and restart between saving and restoring checkpoints, in four frameworks, with different process histories and hash seeds', 'Files are written through the frameworks own savers; networks are small.'),
'C09': ('seeded training histories (initialisations, optimisers, resumptions, interrupts) with an equivariance invariant checked against reference group elements', 'Small networks; equivariance is checked on sampled group elements from an independent model.'),
'C10': ('deterministic interleaving of forward and backward passes through the torch bridge, values and gradients checked against finite differences and jax', 'Interleavings sampled; single precision tolerances.'),
'C11': ('scripted random number generator driving data set construction; labels, symmetry, statistics and solvability checked by independent models', 'Labels recomputed independently in double precision.'),
'C12': ('scripted random number generator driving augmented training and evaluation calls; inputs and outputs checked against reference group elements', 'Models and groups sampled.'),
'C13': ('simulated disk with crash, torn, lost and failing writes at every operation of the cache, followed by restarts; contents checked by integration oracle', 'Crash points enumerated over the file operations of each history; the file system model is a scratch directory plus a write interposer.'),
'C14': ('simulated clock and interrupts driving the trainer through random instalments; parameter updates compared with an uninterrupted run', 'Trainer runs a small model; clock behaviours are sampled.'),
}
NA = {'C15': 'A pure function of its operands: no schedule, clock, I/O, randomness or history for a simulator to control, so this is a job for plain property based testing.',
      'C16': 'A pure function of the channel number and group; nothing for a simulator to vary.',
      'C17': 'A pure function of Hamiltonian, initial state and times (the integrator has no nondeterminism).'}
import importlib
checks = []
for p in sorted(T):
    if not os.path.exists(os.path.join(HERE, 'sim', 'props', p.lower() + '.py')):
        NA.setdefault(p, 'Check not built yet.'); continue
    src = open(os.path.join(HERE, 'sim', 'props', p.lower() + '.py')).read()
    level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'exploration'
    checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p} --tier thorough', technique='deterministic simulation with fault injection: ' + T[p][0], level=level, level_note=T[p][1]))
m = dict(version=1, setup_cmd='python3 setup_check.py',
         hooks=dict(guard='EMLP_SIM_SVD_LIMIT, EMLP_SIM_KRYLOV_LIMIT', enable='The simulator sets the two environment variables before it imports the library in a simulated process (nothing is compiled); unset, the limits are the shipped 3e7 and 2e9.', source_commits=['4923896']),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes='check.py ID --replay FILE replays a violation. Replay files are written to /verif/replays.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
