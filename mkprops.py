"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=hook)))

REP='emlp/reps/representation.py'; PSR='emlp/reps/product_sum_reps.py'; LO='emlp/reps/linear_operators.py'; LOB='emlp/reps/linear_operator_base.py'; GR='emlp/groups.py'

prop('C01', 'Equivariant bases and projectors are exact whatever was solved before',
 "For every symmetry group the library can build (its named groups, embeddings, products of groups, and user defined groups with distinct names or arguments) and every representation composed from it by sums, multiples, tensor products, powers and duals (including tensors over several groups), the equivariant basis has orthonormal columns spanning exactly the vectors fixed by the group, in the coordinate order in which the user wrote the representation, and the equivariant projector is the orthogonal projector onto that space. "
 "This holds whatever other groups and representations were built, queried, reordered or discarded before in the same process: every query gets the answer it would have got as the first query of a fresh process.",
 ['histories','inputs','configurations'],
 'Over all sequences of basis and projector queries, on any mix of groups and representations, that share one process and its solution cache.',
 'The tests solve each representation once, in an essentially fresh process, and compare only a few randomly sampled group elements; solutions reused across equal-up-to-reordering representations, confused groups, missing or extra basis vectors (completeness) are never checked.',
 [REP,PSR,LO,GR],
 [('canonicalize problems and cache solutions, undo the permutation','Rep.equivariant_basis in '+REP),('canonical ordering of sums and products','compute_canonical in '+PSR),('null space by SVD','orthogonal_complement in '+REP),('equality and hash of groups and representations','Group.__eq__/__hash__ in '+GR+', Rep.__eq__/__hash__')],
 [('solcache','process wide map from canonical representation to its solution',REP)],
 ['return values of equivariant_basis() and equivariant_projector()'])
prop('C02', 'A failed or interrupted solve leaves nothing behind',
 "If solving for an equivariant basis or projector, or building a layer, is cut short at any point by an interrupt, an allocation failure or a solver failure, either the call still returns its exact answer or the error reaches the caller, and every later query in the same process (the same one retried, a reordered version of it, or any other) returns the exact answer that it gives in a process where no failure happened, and does not block.",
 ['crash_points','fault_sequences','histories'],
 'Over every point at which a query can be interrupted (each executed line of the library, and its calls into the numerical backend), every fault kind, and every sequence of queries afterwards.',
 'No test makes anything fail; a partially filled cache or flag set too early would be seen only in the next query after a failure at one particular line.',
 [REP,PSR],
 [('the cache entry is stored only once the solution is complete','Rep.equivariant_basis in '+REP),('no state outside the cache is touched while solving',REP)],
 [('solcache','process wide map from canonical representation to its solution',REP)],
 ['return values of queries following an injected fault'])
prop('C03', 'Concurrent callers get the same answers as callers taking turns',
 "When several threads build groups and representations, ask for bases and projectors, and evaluate representation matrices at the same time, every call returns a correct answer for its own arguments under every interleaving, as if the calls had run one after another, and every call finishes.",
 ['schedules','histories'],
 'Over all interleavings, at line granularity of the library, of a few caller threads sharing the process wide cache and representation objects, with equal, overlapping and different queries.',
 'All tests are single threaded; the shared cache, class attributes and memoised sizes are only ever used by one caller.',
 [REP,PSR,GR],
 [('check-then-act on the shared cache is idempotent, results are stored whole','Rep.equivariant_basis in '+REP),('lru_cache on pure functions','rep_permutation in '+PSR)],
 [('solcache','shared between all threads',REP),('_size','memoised size on a representation',REP)],
 ['return value of every call of every thread'])
prop('C04', 'The iterative solver finds the whole solution space or reports failure',
 "For constraint systems too large for the direct method, whatever its random initialisation draws (short of draws of probability below about 1e-5) and however many step size reductions and rank doublings it goes through, the iterative solver either returns an orthonormal basis of the entire invariant subspace, up to its tolerance, or raises an error; when memory limits the rank it logs an error and returns orthonormal vectors that are all invariant. It never silently returns an incomplete basis or vectors that are not invariant, and for well conditioned constraints it succeeds within a few attempts.",
 ['inputs','histories','fault_sequences'],
 'Over all random initialisations (including unlucky ones), solution space dimensions below, at and above each rank bound, badly conditioned constraints that force divergence, and memory limits hit at any doubling.',
 'Only problems with more than 3e7 matrix elements reach this solver, so the tests never check its completeness and see one random draw; divergence, retry and the memory limit are never reached.',
 [REP],
 [('gradient descent from a random start, retried at a lower learning rate when it diverges','krylov_constraint_solve_upto_r in '+REP),('rank doubling until the rank found is below the bound','krylov_constraint_solve in '+REP)],
 [('W','current iterate','krylov_constraint_solve_upto_r')],
 ['return value or exception of equivariant_basis()'],
 'EMLP_SIM_SVD_LIMIT, EMLP_SIM_KRYLOV_LIMIT: lower the two size limits so that small problems take this path')
prop('C05', 'Sampled group elements are always members of the group',
 "Every matrix that a library group's sampling returns, for any state of the random number generator, any batch size and any group parameters, is up to rounding an element of the mathematical group its documentation names, in the documented base representation; the elements of one batch are drawn separately, and repeated sampling exercises every generator of the group (all connected components and all elements of a small finite group are eventually produced). Sampling does not change the group.",
 ['inputs','histories'],
 'Over all random draws (typical, extreme, zero and repeated), all batch sizes, all library groups and their parameters, products and embeddings.',
 'The tests use samples only inside equivariance checks, where an element outside of the group that is generated by the same wrong matrices goes unnoticed, and small samples cannot show a component that is never reached.',
 [GR],
 [('exponential of random Lie algebra elements times random words in the discrete generators','noise2sample, Group.samples in '+GR)],
 [], ['Group.sample(), Group.samples(N)'])
prop('C06', 'Representation objects never change',
 "Representation and group objects behave as immutable values: nothing done with a representation or group (instantiating it for another group, taking duals, sums, products, comparing, hashing, sorting, solving, building layers, by any client in the process) changes the group, size, name, matrices, permutation flag, equality or hash of that object or of any other that is already held. Equal representations hash equally and act by equal matrices.",
 ['histories','schedules'],
 'Over all interleaved sequences of operations by several clients that share representation objects such as Scalar and V.',
 'The tests never look at a representation again after using it elsewhere.',
 [REP,PSR,GR],
 [('operations return new objects','Rep.__add__, __mul__, T, __call__ in '+REP+' and '+PSR)],
 [('Scalar, V','module level objects shared by all clients',REP)],
 ['G, size(), str(), rho(), drho(), ==, hash() of previously created objects'])
prop('C07', 'The group acts in the order the user wrote, in every process',
 "The matrices of a composed representation (for a group element, and for a Lie algebra element) are exactly the direct sums, Kronecker products, Kronecker sums and inverse transposes of its parts in the order in which the user composed them, over one group or several. This does not depend on string hash seeds, object addresses, the order in which groups and representations were created, or anything else that differs from one process to the next, and neither do the canonical form and the permutation reported for a representation.",
 ['configurations','histories','inputs'],
 'Over all hash seeds and address layouts of a process, all creation orders, and all expressions of sums, products, multiples and duals over up to three groups.',
 'Every test run sees one hash seed per process and a handful of expressions, and tests only solutions, so a wrong but consistent ordering passes.',
 [REP,PSR,LO],
 [('canonical order by group, size, name and the permutation back to the order of the user','Rep.__lt__, SumRep/ProductRep/DirectProduct.compute_canonical, distribute_product')],
 [('perm, invperm','permutation between the order of the user and the canonical order',PSR)],
 ['rho(g), drho(A), canonicalize()'])
prop('C08', 'A restored checkpoint computes the same function in any process',
 "If the parameters of a network (objax, flax, haiku or pytorch) are saved, the process ends at any time, and a new process builds the network again with the same arguments and loads the parameters, then loading succeeds and the restored network computes the same outputs as the saved one, whatever random numbers, hash seed and earlier constructions the two processes had.",
 ['crash_points','histories','configurations'],
 'Over all points of a training history at which the process is replaced, all random generator states, hash seeds and other work done before construction in either process.',
 'No test saves, restores or rebuilds a network.',
 ['emlp/nn/objax.py','emlp/nn/flax.py','emlp/nn/haiku.py','emlp/nn/pytorch.py',REP],
 [('construction is deterministic given its arguments','bilinear_weights in '+REP+', uniform_rep in emlp/nn/objax.py'),('parameters are all registered with the framework','emlp/nn/*.py')],
 [], ['parameter trees / state_dict and network outputs'])
prop('C09', 'Networks stay equivariant throughout any training history',
 "A network or layer built for a group is equivariant to that group at initialisation and after every step of any training history, in all four frameworks: for every group element g and input x, f(rho_in(g)x) = rho_out(g)f(x) up to rounding. This holds for any optimiser, learning rate, batch and gradient noise, for interrupted and resumed training, and for any hidden representation allowed.",
 ['histories','inputs','fault_sequences'],
 'Over training histories of any updates to the parameters, interruptions between and within steps, groups, representations, and channel choices.',
 'The tests check equivariance at initialisation only, for four data sets (one for flax, haiku and pytorch) and a few random group elements.',
 ['emlp/nn/objax.py','emlp/nn/flax.py','emlp/nn/haiku.py','emlp/nn/pytorch.py',REP],
 [('weights are projected in every forward pass','Linear in emlp/nn/*.py'),('gates are scalars, permutation representations get pointwise nonlinearities','gated, gate_indices'),('bilinear_weights',REP)],
 [], ['outputs of the network along the history'])
prop('C10', 'PyTorch gradients through the bridge belong to their own forward pass',
 "A function carried into pytorch gives, in every forward and backward pass, the values and gradients of that function at the inputs of that very forward pass, for every argument that needs a gradient, however forward passes, backward passes, in place parameter updates, no_grad evaluations and exceptions of several models or batches are interleaved.",
 ['histories','schedules','fault_sequences'],
 'Over all interleavings of pending forward and backward passes and parameter updates, argument structures, and subsets of arguments needing gradients.',
 'The one pytorch test runs a single forward pass, without a backward pass.',
 ['emlp/nn/pytorch.py'],
 [('residuals are kept on the context of each call','torchify_fn in emlp/nn/pytorch.py')],
 [('ctx.vjp_fn','pullback of one forward pass','torchify_fn')], ['values and .grad after each backward pass'])
prop('C11', 'Generated data sets have the symmetry they declare, for every draw',
 "For any state of the random number generator and any size, the data sets' labels are the documented function of their inputs, that function satisfies y(rho_in(g)x) = rho_out(g)y(x) for the declared group and representations, the declared dimensions and normalisation statistics respect that symmetry, and in the scrambled cube data sets every example labelled solvable can be reached from the solved state by the moves of the group and every other example cannot.",
 ['inputs','configurations'],
 'Over all random draws, data set sizes and options.',
 'The tests use one seed per data set, and only its inputs: labels are never compared with anything.',
 ['emlp/datasets.py',GR],
 [('labels computed from the drawn inputs','Inertia, O5Synthetic, ParticleInteraction, InvertedCube, BrokenRubiksCube')],
 [], ['X, Y, rep_in, rep_out, symmetry, stats'])
prop('C12', 'Group augmentation preserves equivariant models and transforms correctly',
 "Wrapping a model in group augmentation changes nothing outside of training; in training each call draws fresh group elements, one per example, feeds the model the input transformed by that element and returns the output transformed back by the inverse of the same element. Therefore an equivariant model computes the same function with and without augmentation, for every random draw and every data set's declared representations.",
 ['inputs','histories'],
 'Over all random draws, batch sizes, models (equivariant or not), groups and representations, and sequences of calls.',
 'Augmentation is not tested at all (as found it failed on every call).',
 ['emlp/datasets.py'],
 [('GroupAugmentation.__call__','emlp/datasets.py')],
 [], ['outputs and the inputs that reach the wrapped model'])
prop('C13', 'The on-disk trajectory cache survives crashes and is never wrong',
 "Constructing a trajectory data set yields trajectory chunks that belong to its class and arguments: each chunk is a piece of a solution of its Hamiltonian system at the listed times. A construction that starts after another one with the same class and arguments has finished returns the same data until regeneration is asked for (processes that generate at the same time may each keep what they generated). This holds after any earlier construction was killed, interrupted or failed at any point (including torn, empty or lost file writes and a full disk), and while several processes construct at the same time; a construction may fail when a disk error, full disk or interrupt hits that construction itself, but never makes later ones fail.",
 ['crash_points','fault_sequences','schedules','histories'],
 'Over all crash points and disk faults during generation and saving, followed by any sequence of constructions with equal or different arguments, in one or several processes.',
 'experiments/ has no tests.',
 ['experiments/trainer/hamiltonian_dynamics.py'],
 [('cache file named after class and arguments, written to a temporary file and renamed; unreadable files are regenerated','HamiltonianDataset.__init__')],
 [('~/datasets/ODEDynamics/<class>/trajectories_*.pz','cached chunks','HamiltonianDataset.__init__')],
 ['Zs, T, and items of constructed data sets'])
prop('C14', 'Training progress is counted exactly and does not depend on the clock',
 "The trainer performs each requested epoch once: training in any number of instalments (including empty ones) does the same parameter updates, with the same learning rate schedule positions, as training in one go, and the epoch counter equals the number of epochs completed. Wall clock time, clock jumps and the frequency of logging have no influence on the updates or on which batches are drawn; metrics are evaluated with the parameters at that time and recorded at least once, for the last step, at the end of each training call; the checkpoint record that is kept is the one with the best early stopping metric (the latest, without one); and after an interrupt or a failing loader training can continue to the requested epoch.",
 ['schedules','histories','fault_sequences'],
 'Over all splits of training into instalments, interrupts at any step, and all behaviours of the clock that triggers logging.',
 'experiments/ has no tests.',
 ['experiments/trainer/trainer.py','experiments/trainer/classifier.py','experiments/trainer/model_trainer.py'],
 [('epoch counter and schedule argument','Trainer.train, train_to, step'),('time based logging','oil LazyLogger used in Trainer.train')],
 [('epoch','epochs completed','Trainer')], ['parameters, schedule arguments, epoch counter, logged metrics'])
prop('C15', 'Lazy linear operators agree with their dense matrices',
 "Every lazy operator built from library operators by sums, products, scaling, transposes, adjoints, Kronecker products and sums, direct sums, concatenation and permutations gives, for matrix-vector and matrix-matrix products, transposes, adjoints and conversion to a dense matrix, the results of the same operations on the dense matrices.",
 ['inputs','programs'], 'Over all operator expressions and operands.',
 'Tests use only the operators and operations that appear in solving and applying a few representations.',
 [LO,LOB], [('LinearOperator and subclasses',LO)], [], ['matvec, matmat, T, H, to_dense'])
prop('C16', 'The channel heuristic allocates exactly the channels asked for',
 "For every group and every number of channels the automatically chosen hidden representation has exactly that dimension, contains tensors up to the largest rank that fits, and no tensor type of the wrong rank.",
 ['inputs'], 'Over all channel numbers and groups.',
 'Tests use the default of 384 channels and never look at the representation.',
 ['emlp/nn/objax.py'], [('uniform_rep, lambertW, binomial_allocation','emlp/nn/objax.py')], [], ['uniform_rep(ch,group)'])
prop('C17', 'Hamiltonian rollouts follow the dynamics of their Hamiltonian',
 "For every Hamiltonian, initial state and set of time points, rollouts solve the canonical equations of motion to the requested tolerance, so that energy and the conserved quantities of the symmetry are kept, and batched rollouts agree with single ones.",
 ['inputs'], 'Over Hamiltonians, initial conditions and times.',
 'experiments/ has no tests.',
 ['experiments/trainer/hamiltonian_dynamics.py'], [('HamiltonianFlow, BHamiltonianFlow','experiments/trainer/hamiltonian_dynamics.py')], [], ['rollout arrays'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
