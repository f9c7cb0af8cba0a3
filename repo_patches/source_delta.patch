From 08ebbc0678fc824e634647147a6e550f17b28393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 01/28] fix: make the canonical ordering of representations a
 total, process independent order

The comparison of representations mixed the group order with special cases for
duals, scalars and products over several groups and was not transitive (and it
depended on string hashes, which differ between processes). Sorting could then
order the same set of representations differently in two places, so that sums
and products over several groups acted with the wrong matrices, or failed the
canonical assertion.
---
 emlp/groups.py                |  2 +-
 emlp/reps/product_sum_reps.py |  3 +++
 emlp/reps/representation.py   | 26 ++++++++++++--------------
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 9e74f69..d2fac6c 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -97,7 +97,7 @@ class Group(object,metaclass=Named):
 
     def __lt__(self, other):
         """ For sorting purposes only """
-        return hash(self) < hash(other)
+        return repr(self) < repr(other)
 
     def __mul__(self,other):
         return DirectProduct(self,other)
diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index ceb9296..35f20d7 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -371,6 +371,9 @@ class DirectProduct(ProductRep):
         self.is_permutation = all(rep.is_permutation for rep in self.reps.keys())
         assert all(count==1 for count in self.reps.values())
 
+    def _order_key(self): # (a DirectProduct has several groups and no G of its own)
+        return tuple(repr(rep.G) for rep in self.reps),*super()._order_key()[1:]
+
     def equivariant_basis(self):
         canon_Q = LazyKron([rep.equivariant_basis() for rep,c in self.reps.items()])
         return LazyPerm(self.invperm)@canon_Q
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index ad31ef1..e9630f2 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -162,16 +162,20 @@ class Rep(object):
     def __lshift__(self,other):
         """ Linear maps from other -> self """
         return self*other.T
+    def _order_key(self):
+        """ Key for the canonical ordering of representations: first by group(s), then by size, then
+            by name (so that V sorts before V*). Canonicalization relies on this being a total order
+            which depends on nothing but the representation itself. """
+        G = getattr(self,'G',None)
+        return ((repr(G),) if G is not None else ()),self.size(),str(self),type(self).__name__
     def __lt__(self, other):
         """ less than defined to disambiguate ordering multiple different representations.
-            Canonical ordering is determined first by Group, then by size, then by hash"""
-        if other==Scalar: return False
-        try: 
-            if self.G<other.G: return True
-            if self.G>other.G: return False
-        except (AttributeError,TypeError): pass
-        if self.size()<other.size(): return True
-        if self.size()>other.size(): return False
+            Canonical ordering has scalars first and is then determined by Group, by size, and by name
+            (by hash only for reps that these do not tell apart)"""
+        if isinstance(self,ScalarRep) or isinstance(other,ScalarRep):
+            return not isinstance(other,ScalarRep)
+        k1,k2 = self._order_key(),other._order_key()
+        if k1!=k2: return k1<k2
         return hash(self) < hash(other) #For sorting purposes only
     def __mod__(self,other): # Wreath product
         """ Wreath product of representations (Not yet implemented)"""
@@ -256,9 +260,6 @@ class Base(Rep):
         return hash((type(self),self.G))
     def __eq__(self,other):
         return type(other)==type(self) and self.G==other.G
-    def __lt__(self,other):
-        if isinstance(other,Dual): return True
-        return super().__lt__(other)
     # @property
     # def T(self):
     #     return Dual(self.G)
@@ -286,9 +287,6 @@ class Dual(Rep):
         return type(other)==type(self) and self.rep==other.rep
     def __hash__(self):
         return hash((type(self),self.rep))
-    def __lt__(self,other):
-        if other==self.rep: return False
-        return super().__lt__(other)
     def size(self):
         return self.rep.size()
         
-- 
2.43.0


From 0ea1afef3a59ab644af1e4ce8671885efe6c6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 02/28] fix: instantiating Scalar with a group no longer
 changes the shared Scalar

Representation objects are documented as immutable, but Scalar(G) set the group
of the one module level Scalar object, so that every scalar anyone held changed
its group with it.
---
 emlp/reps/representation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index e9630f2..fd91fd4 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -208,8 +208,7 @@ class ScalarRep(Rep):
         self.G=G
         self.is_permutation = True
     def __call__(self,G):
-        self.G=G
-        return self
+        return self.__class__(G)
     def size(self):
         return 1
     def __repr__(self): return str(self)#f"T{self.rank+(self.G,)}"
-- 
2.43.0


From 611b5b25a2eeecc77f4aaae53cf57b385983cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 03/28] fix: tell apart embeddings of a group in different
 dimensions

Groups are compared by their repr, which left out which dimensions an Embed
acts on: Embed(SO(2),4,slice(0,2)) equaled Embed(SO(2),4,slice(2,4)) and got
the cached solutions of whichever was solved first.
---
 emlp/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index d2fac6c..45f074c 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -437,7 +437,8 @@ class Embed(Group):
         self.discrete_generators += np.eye(d)
         self.lie_algebra[:,slice,slice] = G.lie_algebra
         self.discrete_generators[:,slice,slice]  =G.discrete_generators
-        self.name = f"{G}_R{d}"
+        start,stop,step = slice.indices(d)
+        self.name = f"{G}_R{d}[{start}:{stop}]" if step==1 else f"{G}_R{d}[{start}:{stop}:{step}]"
         super().__init__()
    
     def __repr__(self):
-- 
2.43.0


From 7fe3b83e5aad78c45048bd253071a227c7140209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 04/28] fix: separate the arguments in the repr of a group

Groups are compared by their repr: without a separator MyGroup(1,12) and
MyGroup(11,2) were the same group and shared cached solutions.
---
 emlp/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 45f074c..6eb268b 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -86,7 +86,7 @@ class Group(object,metaclass=Named):
     def __repr__(self):
         outstr = f"{self.__class__}"
         if self.args:
-            outstr += '('+''.join(repr(arg) for arg in self.args)+')'
+            outstr += '('+','.join(repr(arg) for arg in self.args)+')'
         return outstr
 
     def __eq__(self,G2):  # TODO: more permissive by checking that spans are equal?
-- 
2.43.0


From 695717da0b2e1e171723b97da00ca34612c56614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 05/28] fix: D(1) is not a permutation group

The flag was determined from the rotation alone, before the reflection was
added, so D(1) counted as a permutation group and got ungated pointwise
nonlinearities, which are not equivariant to the reflection.
---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 6eb268b..0c75fcd 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -173,6 +173,7 @@ class D(C):
     def __init__(self,k):
         super().__init__(k)
         self.discrete_generators = np.concatenate((self.discrete_generators,np.array([[[-1,0],[0,1]]])))
+        self.is_permutation = False # (determined before adding the reflection)
 @export
 class Scaling(Group):
     """ The scaling group in n dimensions"""
-- 
2.43.0


From 69c862bceb62c73b82af63919097061cf89bf5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 06/28] fix: determine the size of custom representations
 without drawing a random sample

Asking a representation for its size (which happens in comparisons and in
layer construction) advanced the global numpy random state.
---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index fd91fd4..5c2137f 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -65,7 +65,7 @@ class Rep(object):
         if hasattr(self,'_size'):
             return self._size
         elif self.concrete and hasattr(self,"G"):
-            self._size = self.rho(self.G.sample()).shape[-1]
+            self._size = self.rho(jnp.eye(self.G.d)).shape[-1]
             return self._size
         else: raise NotImplementedError
 
-- 
2.43.0


From a007640d4898b7d1b710ce1d91d791193e266d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 07/28] fix: rebuilding a network gives the function that its
 parameters belong to

BiLinear drew the inputs it uses, and uniform_rep the tensor types for non
orthogonal groups, from the global numpy random state at construction. Neither
is stored with the parameters, so restoring a checkpoint into a rebuilt
network computed a different function, or failed on the parameter shapes.
---
 emlp/nn/objax.py            | 3 ++-
 emlp/reps/representation.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/emlp/nn/objax.py b/emlp/nn/objax.py
index 2f92846..9f53be1 100644
--- a/emlp/nn/objax.py
+++ b/emlp/nn/objax.py
@@ -149,7 +149,8 @@ def binomial_allocation(N,rank,G):
     n_binoms = N//(2**rank)
     n_leftover = N%(2**rank)
     even_split = sum([n_binoms*int(binom(rank,k))*T(k,rank-k,G) for k in range(rank+1)])
-    ps = np.random.binomial(rank,.5,n_leftover)
+    # (always the same allocation, so that a network can be rebuilt to load its parameters)
+    ps = np.random.RandomState(rank).binomial(rank,.5,n_leftover)
     ragged = sum([T(int(p),rank-int(p),G) for p in ps])
     out = even_split+ragged
     return out
diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 5c2137f..02b6ad9 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -424,7 +424,9 @@ def bilinear_weights(out_rep,in_rep):
     x_multiplicities = {rep:n for rep,n in x_multiplicities.items() if rep!=Scalar}
     nelems = lambda nx,rep: min(nx,rep.size())
     active_dims = sum([W_multiplicities.get(rep,0)*nelems(n,rep) for rep,n in x_multiplicities.items()])
-    reduced_indices_dict = {rep:ids[np.random.choice(len(ids),nelems(len(ids),rep))].reshape(-1)\
+    # The choice is not stored with the parameters, so it must be the same whenever the layer is rebuilt
+    rng = np.random.RandomState(0)
+    reduced_indices_dict = {rep:ids[rng.choice(len(ids),nelems(len(ids),rep))].reshape(-1)\
                                 for rep,ids in x_rep.as_dict(np.arange(x_rep.size())).items()}
     # Apply the projections for each rank, concatenate, and permute back to orig rank order
     @jit
-- 
2.43.0


From 2b4e39c20cc1ecfe9c5245e81e05b383208f1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 08/28] fix: GroupAugmentation for the representations that the
 datasets declare

The datasets pass representations that have no group yet, whose rho raises
NotImplementedError, and the lazy rho of a sum or product cannot be vmapped:
every call with training=True failed.
---
 emlp/datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlp/datasets.py b/emlp/datasets.py
index cc01f03..0baeda6 100644
--- a/emlp/datasets.py
+++ b/emlp/datasets.py
@@ -105,11 +105,11 @@ class ParticleInteraction(object):
 class GroupAugmentation(Module):
     def __init__(self,network,rep_in,rep_out,group):
         super().__init__()
-        self.rep_in=rep_in
-        self.rep_out=rep_out
+        self.rep_in=rep_in(group)
+        self.rep_out=rep_out(group)
         self.G=group
-        self.rho_in = jit(vmap(self.rep_in.rho))
-        self.rho_out = jit(vmap(self.rep_out.rho))
+        self.rho_in = jit(vmap(self.rep_in.rho_dense))
+        self.rho_out = jit(vmap(self.rep_out.rho_dense))
         self.model = network
     def __call__(self,x,training=True):
         if training:
-- 
2.43.0


From cf80edb987b00afb872f5c7751aee728daac6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 09/28] fix: reading and writing the cached trajectories of
 HamiltonianDataset

A second construction always failed, since torch.load by default refuses to
unpickle the numpy array that was saved. An interrupted save left a torn
file behind which no later construction could get past.
---
 experiments/trainer/hamiltonian_dynamics.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index be84aeb..d95bc14 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -10,6 +10,8 @@ from emlp.reps import T,Scalar
 from oil.utils.utils import Named
 from oil.tuning.configGenerator import flatten_dict
 import os
+import logging
+import uuid
 import torch
 import torch
 import torch.nn as nn
@@ -90,13 +92,21 @@ class HamiltonianDataset(Dataset):
         root_dir = os.path.expanduser(f"~/datasets/ODEDynamics/{self.__class__}/")
         filename = os.path.join(root_dir, f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz")
 
+        Zs = None
         if os.path.exists(filename) and not regen:
-            Zs = torch.load(filename)
-        else:
+            try: Zs = torch.load(filename,weights_only=False)
+            except Exception as e: logging.warning(f"Regenerating unreadable {filename}: {e!r}")
+        if Zs is None:
             zs = self.generate_trajectory_data(n_systems, dt, integration_time)
             Zs = np.asarray(self.chunk_training_data(zs, chunk_len))
             os.makedirs(root_dir, exist_ok=True)
-            torch.save(Zs, filename)
+            # Save to a temporary file first so that the cache never holds a partial write
+            tmp = f"{filename}.{uuid.uuid4().hex}.tmp"
+            try:
+                torch.save(Zs, tmp)
+                os.replace(tmp, filename)
+            finally:
+                if os.path.exists(tmp): os.remove(tmp)
         
         self.Zs = Zs
         self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
-- 
2.43.0


From ebea9889295f340d134f36e9f7d4a8c8eef9153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 10/28] fix: HamiltonianDataset has as many times as states in
 each chunk

arange(0,chunk_len*dt,dt) returns chunk_len+1 points when chunk_len*dt rounds
up, e.g. for chunk_len=3 and dt=0.1.
---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index d95bc14..8a123c5 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -109,7 +109,7 @@ class HamiltonianDataset(Dataset):
                 if os.path.exists(tmp): os.remove(tmp)
         
         self.Zs = Zs
-        self.T = np.asarray(jnp.arange(0, chunk_len*dt, dt))
+        self.T = np.asarray(dt*jnp.arange(chunk_len)) # arange(0,chunk_len*dt,dt) can round to an extra point
         self.T_long = np.asarray(jnp.arange(0,integration_time,dt))
 
     def __len__(self):
-- 
2.43.0


From c66fa5a128d9dc2f7c9f8719b06adab8ecbfe499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 11/28] fix: training for zero epochs does not count as an
 epoch

train(0), or train_to the epoch already reached, advanced the epoch counter,
so that later training continued at the wrong epoch.
---
 experiments/trainer/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index 180b7d6..dffb3c6 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -62,7 +62,7 @@ class Trainer(object,metaclass=Named):
                 self.step(self.epoch+i/steps_per_epoch,minibatch)
                 with self.logger as do_log:
                     if do_log: self.logStuff(step, minibatch)
-        self.epoch+=1
+        self.epoch = start_epoch + num_epochs
         self.logStuff(step)
 
     def step(self, epoch, minibatch):
-- 
2.43.0


From 49238960d1cbfa44757fe432027dc6b8784c4a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 12/28] Let environment variables lower the size limits of the
 solvers for simulation

---
 emlp/reps/representation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 02b6ad9..b24fa2b 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -1,3 +1,4 @@
+import os
 import numpy as np
 import jax
 import jax.numpy as jnp
@@ -20,6 +21,11 @@ import emlp.reps
 
 __all__ = ["V","Vector", "Scalar"]
 
+# Size limits of the solvers. The variables are only for exercising the code for
+# large problems on small ones in simulation, and should otherwise not be set.
+SVD_LIMIT = float(os.environ.get('EMLP_SIM_SVD_LIMIT',3e7))
+KRYLOV_LIMIT = float(os.environ.get('EMLP_SIM_KRYLOV_LIMIT',2e9))
+
 @export
 class Rep(object):
     r""" The base Representation class. Representation objects formalize the vector space V
@@ -106,7 +112,7 @@ class Rep(object):
             logging.info(f"Solving basis for {self}"+(f", for G={self.G}" if hasattr(self,"G") else ""))
             #if isinstance(group,Trivial): return np.eye(size(rank,group.d))
             C_lazy = canon_rep.constraint_matrix()
-            if C_lazy.shape[0]*C_lazy.shape[1]>3e7: #Too large to use SVD
+            if C_lazy.shape[0]*C_lazy.shape[1]>SVD_LIMIT: #Too large to use SVD
                 result = krylov_constraint_solve(C_lazy)
             else:
                 C_dense = C_lazy.to_dense()
@@ -308,11 +314,11 @@ def krylov_constraint_solve(C,tol=1e-5):
     """ Computes the solution basis Q for the linear constraint CQ=0  and QᵀQ=I
         up to specified tolerance with C expressed as a LinearOperator. """
     r = 5
-    if C.shape[0]*r*2>2e9: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
+    if C.shape[0]*r*2>KRYLOV_LIMIT: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
     found_rank=5
     while found_rank==r:
         r *= 2 # Iterative doubling of rank until large enough to include the full solution space
-        if C.shape[0]*r>2e9:
+        if C.shape[0]*r>KRYLOV_LIMIT:
             logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
             break
         Q = krylov_constraint_solve_upto_r(C,r,tol)
-- 
2.43.0


From 5d6088824b630993f579f611cd2a738d527981cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 13/28] fix: do not return a basis of nans when the SVD of the
 constraints does not converge

---
 emlp/reps/representation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index b24fa2b..f9699f5 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -4,6 +4,7 @@ import jax
 import jax.numpy as jnp
 from jax import jit, device_put,vmap
 import optax
+import scipy.linalg
 from sklearn.cluster import KMeans
 from tqdm.auto import tqdm
 from .linear_operator_base import LinearOperator, Lazy
@@ -307,6 +308,9 @@ def T(p,q=0,G=None):
 def orthogonal_complement(proj):
     """ Computes the orthogonal complement to a given matrix proj"""
     U,S,VH = jnp.linalg.svd(proj,full_matrices=True)
+    if not jnp.isfinite(VH).all(): # how jax reports that the divide and conquer SVD did not converge
+        logging.warning(f"SVD of the {proj.shape} constraints did not converge, using the slower QR iteration")
+        U,S,VH = map(device_put,scipy.linalg.svd(np.asarray(proj),full_matrices=True,lapack_driver='gesvd'))
     rank = (S>1e-5).sum()
     return VH[rank:].conj().T
 
-- 
2.43.0


From a3210862dd14338bd2014aa0ca9bd6b71ab741f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 14/28] fix: whole cube rotations of RubiksCube turn the grids
 of the faces along, so that its generators are face turns

---
 emlp/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlp/groups.py b/emlp/groups.py
index 0c75fcd..43241e4 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -391,14 +391,19 @@ class RubiksCube(Group): #3x3 rubiks cube
         order_padded[FRBL,:3] = order_padded[np.roll(FRBL,1),:3] # F <- L,R <- F,B <- R,L <- B
         Uperm = unpad(order_padded)
         # Now form all other generators by using full rotations of the cube by 90 clockwise about a given face
+        # (the 3x3 grids of the faces turn along)
+        turn = lambda faces,k: np.rot90(faces.reshape(-1,3,3),k,axes=(1,2)).reshape(faces.shape).copy()
         RotFront =pad(np.arange(48))# rotate full cube so that Left face becomes Up, Up becomes Right, Right becomes Down, Down becomes Left
         URDL = np.array([0,2,5,4])
-        RotFront[URDL,:] = RotFront[np.roll(URDL,1),:]
+        RotFront[URDL,:] = turn(RotFront[np.roll(URDL,1),:],-1)
+        RotFront[1],RotFront[3] = turn(RotFront[1],-1),turn(RotFront[3],1)
         RotFront = unpad(RotFront)
         RotBack = np.argsort(RotFront)
         RotLeft = pad(np.arange(48))
         UFDB = np.array([0,1,5,3])
         RotLeft[UFDB,:] = RotLeft[np.roll(UFDB,1),:]
+        RotLeft[0],RotLeft[3] = turn(RotLeft[0],2),turn(RotLeft[3],2) # (Back is upside down seen from above)
+        RotLeft[4],RotLeft[2] = turn(RotLeft[4],-1),turn(RotLeft[2],1)
         RotLeft = unpad(RotLeft)
         RotRight = np.argsort(RotLeft)
 
-- 
2.43.0


From 83772fdac1678e6863fde3e4dd76e702862fb17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 15/28] fix: inverse transposes of lazy operators

The dual of a representation over a product of groups failed when a factor
has its generator as an array, and scaled, added or direct sum operators gave a
wrong inverse transpose or failed.
---
 emlp/reps/linear_operator_base.py | 4 ++--
 emlp/reps/linear_operators.py     | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/emlp/reps/linear_operator_base.py b/emlp/reps/linear_operator_base.py
index 41eab9a..79b2884 100644
--- a/emlp/reps/linear_operator_base.py
+++ b/emlp/reps/linear_operator_base.py
@@ -556,7 +556,7 @@ class _SumLinearOperator(LinearOperator):
 
     def invT(self):
         A,B = self.args
-        return A.invT() + B.invT()
+        return Lazy(np.linalg.inv(self.to_dense()).T) # does not distribute over the sum
 
 class _ProductLinearOperator(LinearOperator):
     def __init__(self, A, B):
@@ -623,7 +623,7 @@ class _ScaledLinearOperator(LinearOperator):
         return A.H * np.conj(alpha)
     def invT(self):
         A, alpha = self.args
-        return (1/alpha)*A.T
+        return (1/alpha)*A.invT()
     def to_dense(self):
         A, alpha = self.args
         return alpha*A.to_dense()
diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 830ee13..bfb84f4 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -17,6 +17,9 @@ def densify(x):
     elif isinstance(x,(jnp.ndarray,np.ndarray)): return x
     else: raise NotImplementedError
 
+def invT(x):
+    return x.invT() if isinstance(x,LinearOperator) else jnp.linalg.inv(x).T
+
 class I(LinearOperator):
     def __init__(self,d):
         shape = (d,d)
@@ -50,7 +53,7 @@ class LazyKron(LinearOperator):
     def _adjoint(self):
         return LazyKron([Mi.T for Mi in self.Ms])
     def invT(self):
-        return LazyKron([M.invT() for M in self.Ms])
+        return LazyKron([invT(M) for M in self.Ms])
     def to_dense(self):
         Ms = [M.to_dense() if isinstance(M,LinearOperator) else M for M in self.Ms]
         return reduce(jnp.kron,Ms)
@@ -149,9 +152,9 @@ class LazyDirectSum(LinearOperator):
     def _matmat(self,v): # (n,k)
         return lazy_direct_matmat(v,self.Ms,self.multiplicities)
     def _adjoint(self):
-        return LazyDirectSum([Mi.T for Mi in self.Ms])
+        return LazyDirectSum([Mi.T for Mi in self.Ms],self.multiplicities)
     def invT(self):
-        return LazyDirectSum([M.invT() for M in self.Ms])
+        return LazyDirectSum([invT(M) for M in self.Ms],self.multiplicities)
     def to_dense(self):
         Ms_all = [M for M,c in zip(self.Ms,self.multiplicities) for _ in range(c)]
         Ms_all = [Mi.to_dense() if isinstance(Mi,LinearOperator) else Mi for Mi in Ms_all]
-- 
2.43.0


From 168753dfe7abcb7811019e48bfe0a525c6620fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 16/28] fix: Kronecker products with a factor that has no
 columns

as in the basis of a tensor over several groups when one of them has no invariants
---
 emlp/reps/linear_operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index bfb84f4..18d761b 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -44,10 +44,11 @@ class LazyKron(LinearOperator):
     def _matvec(self,v):
         return self._matmat(v).reshape(-1)
     def _matmat(self,v):
-        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],-1)
-        for i,M in enumerate(self.Ms):
+        k = v.shape[1] if len(v.shape)>1 else 1
+        ev = v.reshape(*[Mi.shape[-1] for Mi in self.Ms],k)
+        for i,M in enumerate(self.Ms): # sizes spelled out, as any of them can be 0
             ev_front = jnp.moveaxis(ev,i,0)
-            Mev_front = (M@ev_front.reshape(M.shape[-1],-1)).reshape(M.shape[0],*ev_front.shape[1:])
+            Mev_front = (M@ev_front.reshape(M.shape[-1],product(ev_front.shape[1:]))).reshape(M.shape[0],*ev_front.shape[1:])
             ev = jnp.moveaxis(Mev_front,0,i)
         return ev.reshape(self.shape[0],ev.shape[-1])
     def _adjoint(self):
-- 
2.43.0


From 38989f1b49d863053593026470bade55790adbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 17/28] fix: transpose of the drho of custom representations

so that the dual of a representation that relies on the default drho can be solved
---
 emlp/reps/linear_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/linear_operators.py b/emlp/reps/linear_operators.py
index 18d761b..b988bb4 100644
--- a/emlp/reps/linear_operators.py
+++ b/emlp/reps/linear_operators.py
@@ -116,6 +116,8 @@ class LazyJVP(LinearOperator):
         return self.vjp(v)
     def _rmatmat(self,v):
         return self.vjp_T(v)
+    def _rmatvec(self,v):
+        return self.vjp_T(v)
     
 
 class ConcatLazy(LinearOperator):
-- 
2.43.0


From 9c3147894177f272ace1e2623c77a6ff2b2206a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 18/28] fix: tensors over several groups whose factors of one
 group are not in canonical order

failed with 'Not canonical' when used as summands or dictionary keys
---
 emlp/reps/product_sum_reps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 35f20d7..d61c88f 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -360,9 +360,11 @@ class DirectProduct(ProductRep):
             group_dict = defaultdict(lambda: 1)
             for rep,c in reps.items():
                 group_dict[rep.G]=group_dict[rep.G]*rep**c
-            sub_products = {rep:1 for G,rep in group_dict.items()}
-            self.reps = counter = sub_products
-            self.reps,perm2 = self.compute_canonical([counter],[np.arange(self.size())])
+            # the product of the reps of one group need not be in canonical order, so canonicalize along each axis
+            sub_products,sub_perms = zip(*[rep.canonicalize() for rep in group_dict.values()])
+            order = np.arange(product([len(p) for p in sub_perms])).reshape([len(p) for p in sub_perms])
+            order = order[np.ix_(*sub_perms)].reshape(-1)
+            self.reps,perm2 = self.compute_canonical([{rep:1 for rep in sub_products}],[order])
             self.perm = extra_perm[perm[perm2]] if extra_perm is not None else perm[perm2]
         self.invperm = np.argsort(self.perm)
         self.canonical=(self.perm==self.invperm).all()
-- 
2.43.0


From 52caf5b6c2aee82e79b1888146c4e996eb7b2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 19/28] fix: products of groups that have no generators know
 their dimension

---
 emlp/groups.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlp/groups.py b/emlp/groups.py
index 43241e4..3c5e4a5 100644
--- a/emlp/groups.py
+++ b/emlp/groups.py
@@ -468,6 +468,7 @@ def DkeR3(k):
 
 class DirectProduct(Group):
     def __init__(self,G1,G2):
+        self.d = G1.d*G2.d # (there may be no generators to take it from)
         I1,I2 = I(G1.d),I(G2.d)
         self.lie_algebra = [LazyKronsum([A1,0*I2]) for A1 in G1.lie_algebra]+[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]
         self.discrete_generators = [LazyKron([M1,I2]) for M1 in G1.discrete_generators]+[LazyKron([I1,M2]) for M2 in G2.discrete_generators]
-- 
2.43.0


From 8e19165f1dd1a5c3b21c790f1ecf6a1ab5ce2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 20/28] fix: iterative solver when every vector is invariant
 and there are fewer of them than the rank bound

---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index f9699f5..156381d 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -377,7 +377,7 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     # final_L
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
-    scutoff = (S[rank] if r>rank else 0)
+    scutoff = (S[rank] if len(S)>rank else 0)
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0


From 8ade5ca2a69f822c238396d4c447abc8f8212cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 21/28] fix: incomplete solutions of the iterative solver when
 the rank bound is only just large enough

A square (or wider) block of normal random numbers is nearly singular often enough:
V(Embed(SO(2),12,slice(2))) with np.random.seed(22) gave 9 of 10 basis vectors.
---
 emlp/reps/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index 156381d..e7a3fbf 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -320,7 +320,7 @@ def krylov_constraint_solve(C,tol=1e-5):
     r = 5
     if C.shape[0]*r*2>KRYLOV_LIMIT: raise Exception(f"Solns for contraints {C.shape} too large to fit in memory")
     found_rank=5
-    while found_rank==r:
+    while found_rank>r-3: # (with no columns to spare, a random start that nearly misses a direction is not that unlikely)
         r *= 2 # Iterative doubling of rank until large enough to include the full solution space
         if C.shape[0]*r>KRYLOV_LIMIT:
             logging.error(f"Hit memory limits, switching to sample equivariant subspace of size {found_rank}")
-- 
2.43.0


From f3adaa78e81a1fae9c3435ec44a6cd3c02dcb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 22/28] fix: iterative solver returned vectors that are not
 invariant with no more than a warning

for slowly converging constraints, such as V(D(67))
---
 emlp/reps/representation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlp/reps/representation.py b/emlp/reps/representation.py
index e7a3fbf..f7d50fd 100644
--- a/emlp/reps/representation.py
+++ b/emlp/reps/representation.py
@@ -378,6 +378,8 @@ def krylov_constraint_solve_upto_r(C,r,tol=1e-5,lr=1e-2):#,W0=None):
     final_L = loss_and_grad(Q)[0]
     if final_L >tol: logging.warning(f"Normalized basis has too high error {final_L:.2e} for tol {tol:.2e}")
     scutoff = (S[rank] if len(S)>rank else 0)
+    if rank and jnp.sqrt((jnp.absolute(C@Q)**2).sum(0).max())>1e3*tol: # the start has not been cleared of this vector
+        raise ConvergenceError(f"Found a basis vector which does not satisfy the constraints. Final L {final_L:.2e}")
     assert rank==0 or scutoff < S[rank-1]/100, f"Singular value gap too small: {S[rank-1]:.2e} \
         above cutoff {scutoff:.2e} below cutoff. Final L {final_L:.2e}, earlier {S[rank-5:rank]}"
     #logging.debug(f"found Rank {r}, above cutoff {S[rank-1]:.3e} after {S[rank] if r>rank else np.inf:.3e}. Loss {final_L:.1e}")
-- 
2.43.0


From 1f53b40eeb6e866a90d4911b87aea98613e71de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 23/28] fix: comparing a sum of representations with something
 that is not a sum

---
 emlp/reps/product_sum_reps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index d61c88f..46d77fc 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -41,7 +41,7 @@ class SumRep(Rep):
         return LazyPerm(self.invperm)@LazyDirectSum(drhos,multiplicities)@LazyPerm(self.perm)
 
     def __eq__(self, other):
-        return self.reps==other.reps and (self.perm==other.perm).all()
+        return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
         assert self.canonical
-- 
2.43.0


From a426a0b5f906f8617aedb6754b624e247f865482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 24/28] fix: hidden layers whose representation is a sum that
 is not in canonical order

---
 emlp/reps/product_sum_reps.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/emlp/reps/product_sum_reps.py b/emlp/reps/product_sum_reps.py
index 46d77fc..761c79b 100644
--- a/emlp/reps/product_sum_reps.py
+++ b/emlp/reps/product_sum_reps.py
@@ -44,7 +44,6 @@ class SumRep(Rep):
         return isinstance(other,SumRep) and self.reps==other.reps and (self.perm==other.perm).all()
 
     def __hash__(self):
-        assert self.canonical
         return hash(tuple(self.reps.items()))
 
     @property
-- 
2.43.0


From 31af823f26ed7ebaae2a11247b35c9d1a8ca9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 25/28] fix: gradients of torchified functions with several
 outputs, or with arguments that are pytrees or not floating point

---
 emlp/nn/pytorch.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/emlp/nn/pytorch.py b/emlp/nn/pytorch.py
index b41b251..2751508 100644
--- a/emlp/nn/pytorch.py
+++ b/emlp/nn/pytorch.py
@@ -44,6 +44,9 @@ def to_pytorch(pytree):
     transformed_flat = [jax2torch(v) for v in flat_values]
     return tree_unflatten(tree_type, transformed_flat)
 
+def differentiable(arr):
+    return arr.is_floating_point() or arr.is_complex()
+
 @export
 def torchify_fn(function):
     """ A method to enable interopability between jax and pytorch autograd.
@@ -55,15 +58,27 @@ def torchify_fn(function):
     vjp = jit(lambda *args: jax.vjp(function,*args))
     class torched_fn(Function):
         @staticmethod
-        def forward(ctx,*args):
+        def forward(ctx,trees,*flat_args): # (autograd only sees tensors that are arguments themselves, so pytrees come flattened)
+            args = tree_unflatten(trees['in'],flat_args)
             if any(ctx.needs_input_grad):
                 y,ctx.vjp_fn = vjp(*to_jax(args))#jax.vjp(function,*to_jax(args))
-                return to_pytorch(y)
-            return to_pytorch(function(*to_jax(args)))
+            else:
+                y = function(*to_jax(args))
+            flat_y,ctx.out_tree = tree_flatten(to_pytorch(y))
+            trees['out'] = ctx.out_tree
+            ctx.mark_non_differentiable(*[v for v in flat_y if isinstance(v,torch.Tensor) and not differentiable(v)])
+            return tuple(flat_y)
         @staticmethod
         def backward(ctx,*grad_outputs):
-            return to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))
-    return torched_fn.apply #TORCHED #Roasted
+            grad_y = [torch2jax(g) if differentiable(g) else np.zeros(g.shape,jax.dtypes.float0) for g in grad_outputs]
+            grad_args,_ = tree_flatten(ctx.vjp_fn(tree_unflatten(ctx.out_tree,grad_y)))
+            return (None,)+tuple(jax2torch(g) if needed else None for g,needed in zip(grad_args,ctx.needs_input_grad[1:]))
+    def torched(*args):
+        flat_args,in_tree = tree_flatten(args)
+        trees = {'in':in_tree}
+        flat_y = torched_fn.apply(trees,*flat_args)
+        return tree_unflatten(trees['out'],flat_y)
+    return torched #TORCHED #Roasted
 
 
 @export
-- 
2.43.0


From c90988306756bff34a708dd7ce4930cc54809e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 26/28] fix: training and evaluating neural ODEs does not reuse
 the variables of an earlier trace

---
 experiments/trainer/hamiltonian_dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index 8a123c5..ac32464 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -67,7 +67,8 @@ def BOdeFlow(dynamics,z0,T,tol=1e-4):
     """ Batched integration of ODE dynamics into rollout trajectories.
         Given dynamics (state_dim->state_dim) and z0 of shape (bs,state_dim)
         and T of shape (t,) outputs trajectories (bs,t,state_dim) """
-    dynamics = jit(vmap(jit(dynamics),(0,None)))
+    # jit may not find the trace of an earlier call, which holds on to the variables of a model as they were traced there
+    dynamics = jit(vmap(jit(partial(dynamics)),(0,None)))
     return odeint(dynamics, z0, T, rtol=tol).transpose((1,0,2))
 
 class HamiltonianDataset(Dataset):
-- 
2.43.0


From 20599eb5580a839d9d2f941e7bfb1c4d17401e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 27/28] fix: when metrics are logged has no influence on the
 batches and augmentations drawn in training

---
 experiments/trainer/trainer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/experiments/trainer/trainer.py b/experiments/trainer/trainer.py
index dffb3c6..a8c1413 100644
--- a/experiments/trainer/trainer.py
+++ b/experiments/trainer/trainer.py
@@ -10,7 +10,19 @@ from natsort import natsorted
 import jax
 import logging
 from functools import partial
+import torch
 import objax
+from contextlib import contextmanager
+
+@contextmanager
+def unchanged_randomness():
+    """ Restores the random states, so that what happens inside has no influence on later draws"""
+    np_state, py_state, torch_state = np.random.get_state(), random.getstate(), torch.get_rng_state()
+    try: yield
+    finally:
+        np.random.set_state(np_state)
+        random.setstate(py_state)
+        torch.set_rng_state(torch_state)
 
 class Trainer(object,metaclass=Named):
     """ Base trainer
@@ -61,9 +73,10 @@ class Trainer(object,metaclass=Named):
                 step = i + self.epoch*steps_per_epoch
                 self.step(self.epoch+i/steps_per_epoch,minibatch)
                 with self.logger as do_log:
-                    if do_log: self.logStuff(step, minibatch)
+                    if do_log:
+                        with unchanged_randomness(): self.logStuff(step, minibatch)
         self.epoch = start_epoch + num_epochs
-        self.logStuff(step)
+        with unchanged_randomness(): self.logStuff(step)
 
     def step(self, epoch, minibatch):
         grad,loss = self.gradvals(minibatch)
-- 
2.43.0


From 6c94cf718d489460e38dea42deb31b34c7525665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 28/28] fix: training chunks have chunk_len time points when
 the trajectory length is not a multiple of it

---
 experiments/trainer/hamiltonian_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/trainer/hamiltonian_dynamics.py b/experiments/trainer/hamiltonian_dynamics.py
index ac32464..8bb68de 100644
--- a/experiments/trainer/hamiltonian_dynamics.py
+++ b/experiments/trainer/hamiltonian_dynamics.py
@@ -139,7 +139,7 @@ class HamiltonianDataset(Dataset):
         batch_size, traj_len, *z_dim = zs.shape
         n_chunks = traj_len // chunk_len
         chunk_idx = np.random.randint(0, n_chunks, (batch_size,))
-        chunked_zs = np.stack(np.split(zs,n_chunks, axis=1))
+        chunked_zs = np.stack(np.split(zs[:,:n_chunks*chunk_len],n_chunks, axis=1))
         chosen_zs = chunked_zs[chunk_idx, np.arange(batch_size)]
         return chosen_zs
 
-- 
2.43.0

