From 9eaa8487b2a3c6086c4bcb289ee5a32df9d90830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 01/40] fix: generate() discards the output of earlier (or
 failed) calls

The output lists were appended to, so a second call mixed the results of
different symmetry lists and projected onto stale spaces.
---
 qosy/core.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7543236..80f4e69 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -574,12 +574,31 @@ class SymmetricOperatorGenerator:
              for the later symmetries on the earlier symmetries.
         """
         
+        if mode not in ['cumulative', 'noncumulative']:
+            raise ValueError('Invalid operator generation mode: {}'.format(mode))
+
+        # Discard the output of any previous (possibly failed) calculation.
+        # Only the complete output of a noncumulative calculation is kept 
+        # in cumulative mode, in which case the new output follows it.
+        num_inputs = len(self.input_symmetries)
+        num_kept   = 0
+        if mode == 'cumulative' and len(self.output_operators) == num_inputs and len(self.projected_output_operators) >= num_inputs:
+            num_kept = num_inputs
+
+        self.superoperators   = self.superoperators[:num_kept]
+        self.eigenvalues      = self.eigenvalues[:num_kept]
+        self.eigenvectors     = self.eigenvectors[:num_kept]
+        self.output_operators = self.output_operators[:num_kept]
+
+        self.projected_superoperators   = self.projected_superoperators[:num_kept]
+        self.projected_eigenvalues      = self.projected_eigenvalues[:num_kept]
+        self.projected_eigenvectors     = self.projected_eigenvectors[:num_kept]
+        self.projected_output_operators = self.projected_output_operators[:num_kept]
+
         if mode == 'cumulative':
             return self._generate_cumulative(sparsification=sparsification, orthogonalization=orthogonalization, verbose=verbose, tol=tol)
-        elif mode == 'noncumulative':
-            return self._generate_noncumulative(sparsification=sparsification, orthogonalization=orthogonalization, verbose=verbose, tol=tol)
         else:
-            raise ValueError('Invalid operator generation mode: {}'.format(mode))
+            return self._generate_noncumulative(sparsification=sparsification, orthogonalization=orthogonalization, verbose=verbose, tol=tol)
 
 
 def _ladder_operators_original(basis, operator, sparsification=False, tol=1e-14, return_operators=True):
-- 
2.43.0


From 3d7fe4cb8b1ad6f7ede950aa6267951fddcf364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 02/40] fix: noncumulative orthogonalization keeps the vector
 spaces

Overwriting the first columns of the previous basis with the current one
and keeping dependent vectors (tol=0) changed the spanned space.
---
 qosy/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 80f4e69..1c64c68 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -424,12 +424,12 @@ class SymmetricOperatorGenerator:
                 curr_ops   = self.projected_output_operators[ind_output]
                 prev_ops   = self.projected_output_operators[ind_output-1]
 
-                num_curr_ops = int(curr_ops.shape[1])
+                # The previous vector space contains the current one. Extend
+                # the current basis to a basis of the previous vector space,
+                # discarding the linearly dependent vectors.
+                matrix = np.hstack((curr_ops, prev_ops))
             
-                matrix                    = np.copy(prev_ops)
-                matrix[:, 0:num_curr_ops] = curr_ops
-            
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=1e-8)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From eb55924ecc14c57624f13a5677f2511d3e18cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/40] fix: find all invariant operators in a list of
 non-orthonormal Operators

For such a list (which the default cumulative mode of the
SymmetricOperatorGenerator produces) the symmetry matrix is not normal and
the Hermitian part used before misses invariant operators.
---
 qosy/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 1c64c68..bcd2fab 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -160,7 +160,16 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
-    matrix = 0.5*(sym_matrix + sym_matrix.H)
+    if isinstance(basis, Basis):
+        matrix = 0.5*(sym_matrix + sym_matrix.H)
+    else:
+        # The given Operators are not necessarily orthonormal, in which
+        # case the symmetry matrix S is not a normal matrix and 
+        # (S + S^dagger)/2 has different eigenvectors. The null space of
+        # (S -/+ I)^dagger (S -/+ I)/2 is always the (+/-1)-eigenspace of S.
+        identity    = ss.eye(len(basis), format='csc')
+        diff_matrix = sym_matrix - sign * identity
+        matrix      = sign * (identity - 0.5*(diff_matrix.H).dot(diff_matrix))
 
     if num_vecs is None:
         (evals, evecs) = nla.eigh(matrix.toarray())
-- 
2.43.0


From d37cce95b25b29c4d9cd7e51f7c5e0e5f6a49bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 04/40] fix: invariant_operators with num_vecs no longer
 factors a singular matrix

---
 qosy/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index bcd2fab..04e1b2a 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -174,7 +174,10 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     if num_vecs is None:
         (evals, evecs) = nla.eigh(matrix.toarray())
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+        # Shift sigma slightly away from the desired eigenvalue, since
+        # the shifted matrix is exactly singular otherwise.
+        sigma = sign * (1.0 + 1e-6)
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sigma)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
-- 
2.43.0


From fe37e57be6bdefefba9763307afd65f49f2577cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 05/40] fix: noncumulative generation with num_vecs and several
 symmetries

eigsh was asked for more eigenvectors than the projected superoperator has.
---
 qosy/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 04e1b2a..ea20303 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -395,7 +395,10 @@ class SymmetricOperatorGenerator:
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
-                if self.num_vecs[ind_output] is not None:
+                # (The projected space has at most num_vecs dimensions,
+                # too few for eigsh unless it is much larger.)
+                dim_proj = int(proj_curr_ops.shape[1])
+                if self.num_vecs[ind_output] is not None and self.num_vecs[ind_output] < dim_proj-1:
                     # Using scipy.sparse.linalg.eigsh
                     sigma = -1e-6
                     (evalsPSO, evecsPSO) = ssla.eigsh(projected_superoperator, k=self.num_vecs[ind_output], sigma=sigma)
-- 
2.43.0


From 581d0a2976551710984c7781954ce6589f67074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 06/40] fix: SymmetricOperatorGenerator.generate(verbose=False)
 prints nothing

---
 qosy/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index ea20303..1d975b6 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -424,7 +424,8 @@ class SymmetricOperatorGenerator:
             for ind_output in range(num_inputs):
                 curr_ops = self.projected_output_operators[ind_output]
                 self.projected_output_operators[ind_output] = sparsify(curr_ops)
-                print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
+                if verbose:
+                    print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
         
         if orthogonalization:
             if verbose:
@@ -471,7 +472,8 @@ class SymmetricOperatorGenerator:
                 basis = self.projected_output_operators[-1]
 
             if len(basis) == 0:
-                print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
+                if verbose:
+                    print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
                 continue
                 
             input_symmetry = self.input_symmetries[ind_input]
-- 
2.43.0


From d87e28373abdea4a379aa7335bf440c7306ed08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 07/40] fix: _explore keeps a complete record for every
 Hamiltonian term

What was explored was remembered per basis string only, so reusing the record
with another Hamiltonian (or after an interrupted search) silently dropped
commutators.
---
 qosy/algorithms.py | 52 ++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..46d6ea2 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -54,7 +54,7 @@ def _l_matrix(s_constants, operator):
     col_inds = []
     data     = []
     for (coeff, os) in operator:
-        (ext_basis_inds, basis_inds, s_data) = s_constants[os]
+        (ext_basis_inds, basis_inds, s_data) = s_constants[os][0:3]
         for (row_ind, col_ind, datum) in zip(ext_basis_inds, basis_inds, s_data):
             row_inds.append(row_ind)
             col_inds.append(col_ind)
@@ -124,35 +124,37 @@ def _explore(basis, H, explored_basis, explored_extended_basis, explored_s_const
     # the given Basis. Update the explored_basis, explored_extended_basis,
     # and explored_s_constants variables as you go.
 
-    # First, find the part of basis that is unexplored.
-    unexplored_basis = Basis([os for os in basis if os not in explored_basis])
+    # Assign an index to each OperatorString in basis.
+    explored_basis += basis
 
-    # Then explore that part.
-    (unexplored_s_constants_data, unexplored_extended_basis) = structure_constants(unexplored_basis, H._basis, return_extended_basis=True, return_data_tuple=True)
-
-    # Update the explored Bases.
-    explored_basis          += unexplored_basis
-    explored_extended_basis += unexplored_extended_basis
-
-    # Update the explored structure constants data.
+    # Which OperatorStrings are explored is recorded separately for each
+    # OperatorString of H, since the explored data can be shared between
+    # calculations with different Hamiltonians.
     for (coeff, os) in H:
+        # The old information from previous exploration.
+        if os in explored_s_constants_data:
+            (old_row_inds, old_col_inds, old_data, old_op_strings) = explored_s_constants_data[os]
+        else:
+            (old_row_inds, old_col_inds, old_data, old_op_strings) = ([], [], [], frozenset())
+        
+        # First, find the part of basis that is unexplored.
+        unexplored_basis = Basis([os_b for os_b in basis if os_b not in old_op_strings])
+        if len(unexplored_basis) == 0 and os in explored_s_constants_data:
+            continue
+
+        # Then explore that part.
+        (unexplored_s_constants_data, unexplored_extended_basis) = structure_constants(unexplored_basis, Basis([os]), return_extended_basis=True, return_data_tuple=True)
+        
+        explored_extended_basis += unexplored_extended_basis
+        
         # The new information found from exploring.
         row_inds_unexplored = [explored_extended_basis.index(unexplored_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in unexplored_s_constants_data[os][0]]
         col_inds_unexplored = [explored_basis.index(unexplored_basis.op_strings[ind_b_os]) for ind_b_os in unexplored_s_constants_data[os][1]]
         data_unexplored     = unexplored_s_constants_data[os][2]
 
-        # The old information from previous exploration.
-        if os in explored_s_constants_data:
-            old_row_inds = explored_s_constants_data[os][0]
-            old_col_inds = explored_s_constants_data[os][1]
-            old_data     = explored_s_constants_data[os][2]
-        else:
-            old_row_inds = []
-            old_col_inds = []
-            old_data     = []
-            
-        # The update
-        explored_s_constants_data[os] = (old_row_inds + row_inds_unexplored, old_col_inds + col_inds_unexplored, old_data + data_unexplored)
+        # The update of the explored structure constants data, done
+        # all at once so that it is never left incomplete.
+        explored_s_constants_data[os] = (old_row_inds + row_inds_unexplored, old_col_inds + col_inds_unexplored, old_data + data_unexplored, old_op_strings.union(unexplored_basis.op_strings))
     
     # From the collected information, find the
     # extended_basis corresponding to basis.
@@ -170,7 +172,7 @@ def _explore(basis, H, explored_basis, explored_extended_basis, explored_s_const
         if allowed_labels is not None and len(set(os.orbital_labels).intersection(allowed_labels)) == 0:
             continue # TODO: check if I am doing this right
         
-        (inds_x_eb, inds_x_b, _) = explored_s_constants_data[os]
+        (inds_x_eb, inds_x_b, _) = explored_s_constants_data[os][0:3]
         for (ind_x_eb, ind_x_b) in zip(inds_x_eb, inds_x_b):
             if ind_x_b in inds_x_to_basis and explored_extended_basis[ind_x_eb] not in extended_basis:
                 extended_basis += explored_extended_basis[ind_x_eb]
@@ -189,7 +191,7 @@ def _explore(basis, H, explored_basis, explored_extended_basis, explored_s_const
         # with OperatorStrings with the given allowed_labels, then
         # only construct the extended basis for that part.
         if allowed_labels is None or len(set(os.orbital_labels).intersection(allowed_labels)) != 0:
-            (inds_explored_eb, inds_explored_b, explored_data) = explored_s_constants_data[os]
+            (inds_explored_eb, inds_explored_b, explored_data) = explored_s_constants_data[os][0:3]
             
             for (ind_explored_eb, ind_explored_b, explored_datum) in zip(inds_explored_eb, inds_explored_b, explored_data):
                 if ind_explored_b in inds_x_to_basis and ind_explored_eb in inds_x_to_extended_basis:
-- 
2.43.0


From 004a49d2d2f43aa3469c7fdee33ceafca02631cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 08/40] fix: selected_ci, selected_ci_sweep,
 selected_ci_greedy_simple and selected_ci_simple run again

They treated the Liouvillian matrix returned by _explore as structure
constants, or used liouvillian_matrix without importing it, and always failed.
---
 qosy/algorithms.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 46d6ea2..3d94c64 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
@@ -300,8 +300,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -438,8 +438,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = ((l_matrix.H).dot(l_matrix)).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -579,9 +579,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -589,9 +588,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-
-            l_matrix2 = _l_matrix(s_constants2, H)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -624,8 +621,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From 1c8ae2d63e1e8102a746dc3374ef0b84ffccaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/40] fix: selected_ci_greedy_simple ends when there is no
 new term to add

---
 qosy/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 3d94c64..8e075dd 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -585,6 +585,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
         inds_largest_termsA = np.argsort(np.abs(com_H_operator.toarray().flatten()))[::-1]
+        ind_largest_termB = None
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
@@ -605,6 +606,10 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             else:
                 print('Failed to find a B, picking new A.')
                 
+        # End early if there is no new term to add.
+        if ind_largest_termB is None:
+            break
+        
         # Insert B into the basis
         basis += extended_basis2[ind_largest_termB]
         
-- 
2.43.0


From fa53a7753f36322ad5ddb2fe04c229cbbdabeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 10/40] fix: adding Operators whose Basis was shared by
 reference and has grown

The coefficients were padded by the growth of the shared Basis only, giving
wrong lengths and IndexErrors or misplaced coefficients.
---
 qosy/basis.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..a300bf5 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -510,11 +510,13 @@ class Operator:
 
         # Pad the coefficients vector with zeros
         # to match the new basis size.
-        new_operator.coeffs = np.pad(new_operator.coeffs, (0,len(new_operator._basis)-len(self._basis)), 'constant')
+        # (A Basis shared by reference can already be larger than the 
+        # number of coefficients, in which case they are also zeros.)
+        new_operator.coeffs = np.pad(new_operator.coeffs, (0,len(new_operator._basis)-len(new_operator.coeffs)), 'constant')
 
         # Collect the indices of the other Operator
         # in the new enlarged basis.
-        inds_new_basis = np.array([new_operator._basis.index(op_string) for op_string in other._basis], dtype=int)
+        inds_new_basis = np.array([new_operator._basis.index(op_string) for (_, op_string) in other], dtype=int)
 
         # Add the other Operator's coefficients
         # to the enlarged coefficients vector.
@@ -541,17 +543,17 @@ class Operator:
             raise ValueError('Cannot add operator of op_type {} to operator of op_type {}'.format(self.op_type, other.op_type))
 
         # Enlarge the basis.
-        old_len = len(self._basis)
         self._basis += other._basis
-        new_len = len(self._basis)
 
         # Pad the coefficients vector with zeros
         # to match the new basis size.
-        self.coeffs = np.pad(self.coeffs, (0,new_len-old_len), 'constant')
+        # (A Basis shared by reference can already be larger than the 
+        # number of coefficients, in which case they are also zeros.)
+        self.coeffs = np.pad(self.coeffs, (0,len(self._basis)-len(self.coeffs)), 'constant')
 
         # Collect the indices of the other Operator
         # in the new enlarged basis.
-        inds_new_basis = np.array([self._basis.index(op_string) for op_string in other._basis], dtype=int)
+        inds_new_basis = np.array([self._basis.index(op_string) for (_, op_string) in other], dtype=int)
 
         # Add the other Operator's coefficients
         # to the enlarged coefficients vector.
-- 
2.43.0


From ace9bea89e50e58d91200cf9483e097017e2fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 11/40] fix: a Basis does not share its list with the caller

Growing the Basis in-place changed the caller's list (and any Basis made from
it), leaving the latter's index dictionary incomplete.
---
 qosy/basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index a300bf5..ef8ecf4 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -47,8 +47,9 @@ class Basis:
         
         if op_strings is None:
             op_strings = []
-        
-        self.op_strings = op_strings
+
+        # Copy the list, since the Basis can grow in-place.
+        self.op_strings = list(op_strings)
 
         # A dictionary that maps each OperatorString
         # to its index in the list op_strings.
@@ -237,7 +238,7 @@ class Basis:
                     self._indices[os] = ind
                     ind += 1
         elif isinstance(other, OperatorString):
-            ind = len(self._indices)
+            ind = len(self.op_strings)
             if other not in self:
                 self.op_strings.append(other)
                 self._indices[other] = ind
-- 
2.43.0


From fb88c821b818ca62c13463cfb88e8a48ca9ba458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 12/40] fix: selected_ci_greedy no longer loops forever when
 target_fidelity is out of reach

It kept adding eigenvectors when there were none left to add.
---
 qosy/algorithms.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 8e075dd..782a32e 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -729,8 +729,6 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
     if num_vecs is None:
         num_vecs = 1
     
-    ncv = 40*num_vecs
-    
     H_labels = np.array([label for os in H._basis for (_, label) in os], dtype=int)
     max_label = np.max(H_labels)
 
@@ -932,7 +930,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         else:
             maxiter  = 10*int(com_matrix.shape[0])*maxiter_scale
             
-            (evals, evecs) = ssla.eigsh(com_matrix, k=num_vecs, ncv=ncv, sigma=sigma, which='LM', maxiter=maxiter, tol=tol)
+            (evals, evecs) = ssla.eigsh(com_matrix, k=num_vecs, ncv=40*num_vecs, sigma=sigma, which='LM', maxiter=maxiter, tol=tol)
 
             inds_sort = np.argsort(np.abs(evals))
             evals = evals[inds_sort]
@@ -971,8 +969,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
-                # will keep failing.
-                if step == 0:
+                # will keep failing. If all of the eigenvectors 
+                # were considered, it will keep failing.
+                if step == 0 or int(evecs.shape[1]) >= len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From 6ebfd2f9b4a652f00bd4227018ed4ce1f0233b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 13/40] fix: selected_ci with orth_ops or transformations
 reports constrained operators and true norms

Re-sorting by the unconstrained norm could pick an eigenvector violating the
constraints, and the reported norms included the large penalty terms.
---
 qosy/algorithms.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 782a32e..eeed2c2 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -513,6 +513,11 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                     vector = ss.csr_matrix(evecs[:,ind_vec].reshape(len(basis),1))
                     evals[ind_vec] = np.real((vector.H).dot(com_matrix).dot(vector)[0,0])
                 #print('Rescaled eigenvalues: {}'.format(evals))
+            # Recompute the commutator norms without the projection.
+            elif orth_ops is not None:
+                for ind_vec in range(int(evecs.shape[1])):
+                    vector = ss.csr_matrix(evecs[:,ind_vec].reshape(len(basis),1))
+                    evals[ind_vec] = np.real((vector.H).dot(orig_com_matrix).dot(vector)[0,0])
                 
             if post_filter_fun is not None:
                 (vector, com_norm) = post_filter_fun(evals, evecs, basis)
@@ -938,15 +943,13 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
 
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
-        if len(com_ops) > 1 or orth_ops is not None:
+        # (The eigenvectors stay in the same order, since the last ones
+        # can violate the orthogonality and symmetry requirements.)
+        if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
                 evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
 
-            inds_sort = np.argsort(np.abs(evals))
-            evals = evals[inds_sort]
-            evecs = evecs[:, inds_sort]
-
         if target_operator is None:
             vector   = evecs[:,0]
             com_norm = evals[0]
@@ -966,6 +969,12 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             # commutator norm with the Hamiltonian |[H, O]|^2,
             # even though it is not an eigenstate of the commutant matrix.
             (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
+
+            # The eigenvectors are not eigenvectors for commuting with
+            # just the Hamiltonian in these cases.
+            if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
+                vec      = ss.csr_matrix(vector.reshape((len(basis), 1)), dtype=complex)
+                com_norm = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
@@ -1218,7 +1227,8 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         
         # Find best operators in basis
         (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix   = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix_H = com_matrix.copy()
             
         # Orthogonalize against the given operators.
         if orth_ops is not None:
@@ -1236,14 +1246,12 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
 
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
+        # (The eigenvectors stay in the same order, since the last ones
+        # can violate the orthogonality requirements.)
         if orth_ops is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
-                evals[ind_vec] = (vec.H).dot(com_matrix.dot(vec))[0,0].real
-                
-            inds_sort = np.argsort(np.abs(evals))
-            evals = evals[inds_sort]
-            evecs = evecs[:, inds_sort]
+                evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
             
         vector   = evecs[:,0]
         com_norm = evals[0]
-- 
2.43.0


From 2a226047c80d0d3b03e1fe213a3c339b890fed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 14/40] fix: selected_ci_greedy expands the truncated operator
 with its own coefficients

They were looked up with the indices of the truncated basis.
---
 qosy/algorithms.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index eeed2c2..9bbfc7a 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1031,12 +1031,13 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             best_com_norm = com_norm
         
         # Truncate basis
-        basis = _truncate_basis(basis, evecs[:,0], threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
+        full_basis = basis
+        basis = _truncate_basis(full_basis, evecs[:,0], threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
-        new_coeffs = [vector[basis.index(os)] for os in basis]
+        new_coeffs = [vector[full_basis.index(os)] for os in basis]
         operator = Operator(new_coeffs, basis.op_strings)
 
         # Stop early if reached the target commutator norm threshold.
@@ -1267,14 +1268,15 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         for ind_vec in range(num_ops):
             random_sum_vec += (2.0*np.random.rand()-1.0) * evecs[:,ind_vec]
         random_sum_vec /= nla.norm(random_sum_vec)    
-        basis = _truncate_basis(basis, random_sum_vec, threshold=threshold, max_basis_size=max_basis_size)
+        full_basis = basis
+        basis = _truncate_basis(full_basis, random_sum_vec, threshold=threshold, max_basis_size=max_basis_size)
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
         current_operators = []
         for ind_vec in range(num_ops):
-            new_coeffs = [evecs[basis.index(os),ind_vec] for os in basis]
+            new_coeffs = [evecs[full_basis.index(os),ind_vec] for os in basis]
             new_op     = Operator(new_coeffs, basis.op_strings)
             current_operators.append(new_op)
         
-- 
2.43.0


From 6405061aacdeb0b317ed395f11f289824d9fe67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 15/40] fix: selected_ci_greedy_many_ops with a list of
 max_basis_size

It compared an int with the whole list from the second step on.
---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 9bbfc7a..c98d7bd 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1112,7 +1112,7 @@ def selected_ci_greedy_many_ops(initial_operators, H, num_steps, num_H_terms=10,
 
             # Truncate the operator.
             if step > 0:
-                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_size)
+                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_sizes[step])
 
             com_ops = H
             #com_ops = [H] + [current_operators[ind_op2] for ind_op2 in range(num_operators) if ind_op2 != ind_op]
-- 
2.43.0


From 2b6db1b8e03ff144003a2aaa29c8d98250a77a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 16/40] fix: selected_ci_greedy(verbose=False) prints nothing
 with a target_operator

---
 qosy/algorithms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index c98d7bd..51ee862 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -666,7 +666,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 # operator O, which is a linear combination of the given
 # eigenvectors of the commutant matrix, with the highest
 # overlap with target_operator.
-def highest_fidelity_operator(target_operator, evecs, evals, basis):
+def highest_fidelity_operator(target_operator, evecs, evals, basis, verbose=True):
 
     # The target_operator projected into the given basis.
     target_op_vector = np.zeros(len(basis), dtype=complex)
@@ -699,9 +699,10 @@ def highest_fidelity_operator(target_operator, evecs, evals, basis):
 
     fidelity = norm_vector**2.0
 
-    print('  (Overlaps  = {})'.format(overlaps))
-    print('  (Com norms = {})'.format(evals))
-    print('  (Fidelity  = {})'.format(fidelity))
+    if verbose:
+        print('  (Overlaps  = {})'.format(overlaps))
+        print('  (Com norms = {})'.format(evals))
+        print('  (Fidelity  = {})'.format(fidelity))
     
     return (vector, com_norm, fidelity)
 
@@ -968,7 +969,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             # and returns its vector representation and its
             # commutator norm with the Hamiltonian |[H, O]|^2,
             # even though it is not an eigenstate of the commutant matrix.
-            (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
+            (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis, verbose=verbose)
 
             # The eigenvectors are not eigenvectors for commuting with
             # just the Hamiltonian in these cases.
-- 
2.43.0


From da5b1c77597ab594e0add765c3be5b86ec015ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 17/40] fix: noncumulative orthogonalization keeps the
 dimension of nearly contained spaces

---
 qosy/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 1d975b6..b10e3a3 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -442,10 +442,17 @@ class SymmetricOperatorGenerator:
 
                 # The previous vector space contains the current one. Extend
                 # the current basis to a basis of the previous vector space,
-                # discarding the linearly dependent vectors.
-                matrix = np.hstack((curr_ops, prev_ops))
-            
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=1e-8)
+                # each time with the most linearly independent vector left.
+                new_ops   = gram_schmidt(curr_ops)
+                rest_ops  = prev_ops - np.dot(new_ops, np.dot(np.conj(new_ops.T), prev_ops))
+                while new_ops.shape[1] < prev_ops.shape[1]:
+                    vector   = rest_ops[:, np.argmax(nla.norm(rest_ops, axis=0))]
+                    vector   = vector - np.dot(new_ops, np.dot(np.conj(new_ops.T), vector))
+                    vector   = (vector / nla.norm(vector)).reshape((-1, 1))
+                    new_ops  = np.hstack((new_ops, vector))
+                    rest_ops = rest_ops - np.dot(vector, np.dot(np.conj(vector.T), rest_ops))
+
+                self.projected_output_operators[ind_output-1] = new_ops
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 0e2e3dbeaddd7b05ef5adfd914a096da6ca1ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 18/40] fix: invariant_operators in a list of Operators is as
 accurate as in a Basis

The quadratic form used for lists counted only the part of the change that
lies in the span of the list, so a nearly invariant operator could pass.
---
 qosy/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index b10e3a3..be629b6 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -165,11 +165,18 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         # The given Operators are not necessarily orthonormal, in which
         # case the symmetry matrix S is not a normal matrix and 
-        # (S + S^dagger)/2 has different eigenvectors. The null space of
-        # (S -/+ I)^dagger (S -/+ I)/2 is always the (+/-1)-eigenspace of S.
-        identity    = ss.eye(len(basis), format='csc')
-        diff_matrix = sym_matrix - sign * identity
-        matrix      = sign * (identity - 0.5*(diff_matrix.H).dot(diff_matrix))
+        # (S + S^dagger)/2 has different eigenvectors. Instead, compute
+        # half the squared norm of (transformed operator -/+ operator) as a
+        # quadratic form using the overlap matrix of the given Operators. 
+        # Its null vectors are the (+/-1)-eigenvectors of S.
+        opstrings = Basis()
+        for op in basis:
+            opstrings += op._basis
+        op_vectors     = ss.csc_matrix(np.array([op.to_vector(opstrings) for op in basis]).T)
+        overlap_matrix = (op_vectors.H).dot(op_vectors)
+        overlaps       = overlap_matrix.dot(sym_matrix)
+        diff_matrix    = overlap_matrix - 0.5*sign*(overlaps + overlaps.H)
+        matrix         = sign * (ss.eye(len(basis), format='csc') - diff_matrix)
 
     if num_vecs is None:
         (evals, evecs) = nla.eigh(matrix.toarray())
-- 
2.43.0


From a28b5ccd9904ea67e3635d3b85d2d4f7441bebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 19/40] fix: selected_ci_greedy with a target_operator that
 does not overlap with the basis

highest_fidelity_operator divided by zero and the reported operator was NaN.
---
 qosy/algorithms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 51ee862..530040a 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -694,8 +694,14 @@ def highest_fidelity_operator(target_operator, evecs, evals, basis, verbose=True
         com_norm += np.abs(overlaps[ind_evec])**2.0 * np.abs(evals[ind_evec])
 
     norm_vector = nla.norm(vector)
-    vector     /= norm_vector
-    com_norm   /= norm_vector**2.0
+    if norm_vector > 1e-12:
+        vector   /= norm_vector
+        com_norm /= norm_vector**2.0
+    else:
+        # The target_operator does not overlap with any of the eigenvectors,
+        # so they are all equally close to it. Use the best one.
+        vector   = evecs[:, 0].astype(complex)
+        com_norm = np.abs(evals[0])
 
     fidelity = norm_vector**2.0
 
-- 
2.43.0


From c5c8cae3dc415f42cc56a46182bb6a27686b9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 20/40] fix: selected_ci_greedy with a target_operator respects
 orth_ops and transformations

---
 qosy/algorithms.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 530040a..f29e434 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -948,6 +948,17 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             evals = evals[inds_sort]
             evecs = evecs[:, inds_sort]
 
+        num_evecs = int(evecs.shape[1])
+
+        # When combining eigenvectors to get close to the target_operator,
+        # leave out the ones that violate the orthogonality and symmetry
+        # requirements, which have very large eigenvalues.
+        if target_operator is not None and (orth_ops is not None or transformations is not None):
+            inds_valid = np.where(np.abs(evals) < 1e5)[0]
+            if len(inds_valid) > 0:
+                evals = evals[inds_valid]
+                evecs = evecs[:, inds_valid]
+
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
         # (The eigenvectors stay in the same order, since the last ones
@@ -987,7 +998,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
                 # If it fails on the first step, it likely
                 # will keep failing. If all of the eigenvectors 
                 # were considered, it will keep failing.
-                if step == 0 or int(evecs.shape[1]) >= len(basis):
+                if step == 0 or num_evecs >= len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From 07b3481df67b18fd1a54552c23aa580510c1b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 21/40] fix: approximate searches impose orthogonality with a
 projection instead of a huge penalty

With a penalty of 1e10 (1e12 in the sweeps) the sparse eigensolver's answers
violated the orthogonality by 1e-2 when several operators commute exactly.
---
 qosy/algorithms.py | 84 +++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 45 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index f29e434..079ddcd 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -74,33 +74,42 @@ def _com_matrix(s_constants, operator):
         
     return com_matrix
 
-def _orthogonalize_com_matrix(com_matrix, basis, orth_ops):
+def _orthogonalize_com_matrix(com_matrix, basis, orth_ops, weights=None, large_number=None):
     # Update C_H^\dagger C_H to make its
     # ground state orthogonal to the given
     # operators.
 
-    new_com_matrix = com_matrix.copy()
-    
+    # Collect the vectors of the given operators
+    # projected into the basis.
+    orth_vecs = np.zeros((len(basis), len(orth_ops)), dtype=complex)
+    for ind_op in range(len(orth_ops)):
+        for (coeff, os) in orth_ops[ind_op]:
+            if os in basis:
+                orth_vecs[basis.index(os), ind_op] = coeff
+    if weights is not None:
+        orth_vecs = orth_vecs * np.reshape(weights, (len(basis), 1))
+
     # Create a projection matrix that projects
     # out of the space spanned by the given operators.
-    proj_ops = ss.csr_matrix((len(basis),len(basis)), dtype=complex)
-    for orth_op in orth_ops:
-        row_inds = []
-        col_inds = []
-        data     = []
-        for (coeff, os) in orth_op:
-            if os in basis:
-                data.append(coeff)
-                row_inds.append(basis.index(os))
-                col_inds.append(0)
-        orth_vec = ss.csr_matrix((data, (row_inds, col_inds)), shape=(len(basis),1), dtype=complex)
+    (left_vecs, singular_vals, _) = nla.svd(orth_vecs, full_matrices=False)
+    left_vecs = left_vecs[:, singular_vals > 1e-6]
+    proj_ops  = ss.csr_matrix(left_vecs).dot(ss.csr_matrix(left_vecs).H)
+    proj_rest = ss.eye(len(basis), format='csr') - proj_ops
 
-        proj_ops += orth_vec.dot(orth_vec.H)
-        
-    large_number = 1e10
-    new_com_matrix += large_number * proj_ops
+    # The given operators are decoupled from the rest and moved above the
+    # rest of the spectrum. (Adding a huge multiple of proj_ops instead would
+    # make the matrix too badly conditioned for the eigensolvers.)
+    new_com_matrix = proj_rest.dot(com_matrix.dot(proj_rest))
+    if large_number is None:
+        large_number = _constraint_eigenvalue(com_matrix)
+    new_com_matrix = new_com_matrix + large_number * proj_ops
+
+    return ss.csr_matrix(new_com_matrix.real)
+
+def _constraint_eigenvalue(com_matrix):
+    # An eigenvalue that is certainly above the spectrum of C_H^\dagger C_H.
 
-    return new_com_matrix.real
+    return 10.0 * (1.0 + np.real(com_matrix.diagonal().sum()))
 
 def _symmetrize_com_matrix(com_matrix, basis, transformations):
     # Update the commutant matrix to make its
@@ -443,27 +452,6 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
 
             orig_com_matrix = com_matrix.copy()
             
-            # Project against the given operators.
-            if orth_ops is not None:
-                # Create a projection matrix that projects
-                # out of the space spanned by the given operators.
-                proj_ops = ss.csr_matrix((len(basis),len(basis)), dtype=complex)
-                for orth_op in orth_ops:
-                    row_inds = []
-                    col_inds = []
-                    data     = []
-                    for (coeff, os) in orth_op:
-                        if os in basis:
-                            data.append(coeff)
-                            row_inds.append(basis.index(os))
-                            col_inds.append(0)
-                    orth_vec = ss.csr_matrix((data, (row_inds, col_inds)), shape=(len(basis),1), dtype=complex)
-
-                    proj_ops += orth_vec.dot(orth_vec.H)
-
-                large_number = 1e12
-                com_matrix += large_number * proj_ops
-            
             # Rescale C^\dagger C to D^{-1/2} C^\dagger C D^{-1/2}
             # for a given normalization of the OperatorStrings D.
             if norm_fun is not None:
@@ -478,6 +466,11 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                 
                 com_matrix = D_inv_sqrt.dot(com_matrix.dot(D_inv_sqrt))
                 com_matrix = com_matrix.real
+
+            # Project against the given operators.
+            if orth_ops is not None:
+                weights    = 1.0 / np.sqrt(basis_norms) if norm_fun is not None else None
+                com_matrix = _orthogonalize_com_matrix(com_matrix, basis, orth_ops, weights=weights)
                 
             if len(basis) < 2*max_num_evecs:
                 (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -925,13 +918,14 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             if ind_com_op == 0:
                 com_matrix_H += cdagc_real
 
-        # Orthogonalize against the given operators.
-        if orth_ops is not None:
-            com_matrix = _orthogonalize_com_matrix(com_matrix, basis, orth_ops)
-
+        # Impose the symmetries and orthogonalize against the given operators.
+        constraint_eigenvalue = _constraint_eigenvalue(com_matrix)
         if transformations is not None:
             com_matrix = _symmetrize_com_matrix(com_matrix, basis, transformations)
 
+        if orth_ops is not None:
+            com_matrix = _orthogonalize_com_matrix(com_matrix, basis, orth_ops, large_number=constraint_eigenvalue)
+
         #import matplotlib.pyplot as plt
         #plt.matshow(np.log(np.abs(com_matrix).toarray()), cmap=plt.get_cmap('Spectral'))
         #plt.colorbar()
@@ -954,7 +948,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         # leave out the ones that violate the orthogonality and symmetry
         # requirements, which have very large eigenvalues.
         if target_operator is not None and (orth_ops is not None or transformations is not None):
-            inds_valid = np.where(np.abs(evals) < 1e5)[0]
+            inds_valid = np.where(np.abs(evals) < 0.5*constraint_eigenvalue)[0]
             if len(inds_valid) > 0:
                 evals = evals[inds_valid]
                 evecs = evecs[:, inds_valid]
-- 
2.43.0


From c672eee727494b76b3dff2ff917113ce9dc86220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 22/40] fix: equality and hashing of OperatorStrings agree
 about the prefactor

---
 qosy/operatorstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..38b6907 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -152,6 +152,10 @@ class OperatorString:
            or (self.op_type == 'Fermion' and self.prefactor not in [1, 1j]):
             raise ValueError('Invalid prefactor {} for operator string of op_type {}'.format(self.prefactor, self.op_type))
                  
+        # The name, and so the hash, of equal OperatorStrings has to be
+        # the same no matter how the prefactor was given (1, 1.0, 1+0j).
+        self.prefactor = 1j if self.prefactor == 1j else 1.0
+        
         name_list = [str(self.prefactor),' ']
         for (op, la) in zip(self.orbital_operators, self.orbital_labels):
             name_list.extend([op, ' ', str(la), ' '])
@@ -209,7 +213,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From 0fb564868ce2e9a8b5c8a5c24aeead33c1015898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 23/40] fix: diagonalize_quadratic finds the Schur blocks
 wherever zero modes put them

---
 qosy/diagonalization.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..f208a84 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -315,6 +315,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # where Z is unitary and T is quasi-upper-triangular,
     # so that it forms 2x2 blocks of the form [[0, a], [-a, 0]].
     (T, Z) = sla.schur(A.toarray(), output='real')
+
+    # Zero modes appear as 1x1 blocks, which can be anywhere along
+    # the diagonal. Move them to the end, so that the 2x2 blocks are
+    # at the rows (and columns) 2n and 2n+1.
+    inds_pairs = []
+    inds_zero  = []
+    ind        = 0
+    while ind < 2*N:
+        if ind + 1 < 2*N and T[ind+1,ind] != 0.0:
+            inds_pairs += [ind, ind+1]
+            ind        += 2
+        else:
+            inds_zero  += [ind]
+            ind        += 1
+    inds_blocks = np.array(inds_pairs + inds_zero, dtype=int)
+    T = T[inds_blocks, :][:, inds_blocks]
+    Z = Z[:, inds_blocks]
     
     # N (non-negative) eigenvalues
     # Note: the +/- eigenvalue pairs across the diagonal are
-- 
2.43.0


From 698dc9fd36a07a897dc64f3aacf94669ecf2b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 24/40] fix: diagonalize_quadratic stores each fermionic mode
 in its own column

---
 qosy/diagonalization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index f208a84..4477e5d 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -357,23 +357,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     eigvecs_Fermion = np.zeros((2*N,2*N), dtype=complex)
     for m in range(N):
         for n in range(N):
-            # The \bar{c_m} vectors
-            # \bar{c}_m = \sum_n a_n c_n + ...
+            # The \bar{c_n} vectors
+            # \bar{c}_n = \sum_m a_m c_m + ...
             eigvecs_Fermion[m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
                                           -1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
 
-            # \bar{c}_m = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[m,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
+            # \bar{c}_n = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[N+m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
                                               +1j*Z[2*m+1,2*n]    - Z[2*m+1,2*n+1])
             
-            # The \bar{c_m}^\dagger vectors
-            # \bar{c}_m^\dagger = \sum_n a_n c_n + ...
-            eigvecs_Fermion[2*m+1,n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+            # The \bar{c_n}^\dagger vectors
+            # \bar{c}_n^\dagger = \sum_m a_m c_m + ...
+            eigvecs_Fermion[m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
                                               -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
 
-            # \bar{c}_m^\dagger = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[2*m+1,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                                  -1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
+            # \bar{c}_n^\dagger = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[N+m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                                  +1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
             
     # The ground state energy
     constant_shift = -0.5*np.sum(eigvals)
-- 
2.43.0


From 0ebd9a14100481b939e844ddd9723b0136960f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 25/40] fix: partial tight-binding diagonalization returns its
 levels in increasing order

---
 qosy/diagonalization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 4477e5d..b38ceb9 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -414,6 +414,10 @@ def diagonalize_quadratic_tightbinding(operator, num_orbitals, num_vecs=None):
         (evals, evecs) = nla.eigh(tight_binding_hamiltonian.toarray())
     else:
         (evals, evecs) = ssla.eigsh(tight_binding_hamiltonian, k=num_vecs, which='SA')
+
+        inds_sort = np.argsort(evals)
+        evals = evals[inds_sort]
+        evecs = evecs[:, inds_sort]
     
     return (evals, evecs)
 
-- 
2.43.0


From d78f95c7ea44112c56a5a60761bfa815eb84b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 26/40] fix: to_operator passes on num_orbitals and finds the
 Operator class

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index b38ceb9..95c4195 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From 9815c237b0420594ded36ad63958f0c9455e79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 27/40] fix: UnitCell and Lattice copy the lists and arrays
 they are given

---
 qosy/lattice.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..137abca 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -29,17 +29,19 @@ class UnitCell:
     """
     
     def __init__(self, lattice_vectors, atom_positions=None, atom_orbitals=None):
-        self.lattice_vectors = lattice_vectors
+        # Copy the lists and arrays, since the
+        # UnitCell can be modified in-place.
+        self.lattice_vectors = copy.deepcopy(lattice_vectors)
 
         if atom_positions is None:
             self.atom_positions = []
         else:
-            self.atom_positions = atom_positions
+            self.atom_positions = copy.deepcopy(atom_positions)
             
         if atom_orbitals is None:
             self.atom_orbitals = []
         else:
-            self.atom_orbitals = atom_orbitals
+            self.atom_orbitals = copy.deepcopy(atom_orbitals)
 
     def add_atom(self, position, orbitals=None):
         """Add an atom to the UnitCell.
@@ -53,12 +55,12 @@ class UnitCell:
             By default creates a single orbital with name ''.
         """
         
-        self.atom_positions.append(position)
+        self.atom_positions.append(copy.deepcopy(position))
         
         if orbitals is None:
             self.atom_orbitals.append([''])
         else:
-            self.atom_orbitals.append(orbitals)
+            self.atom_orbitals.append(copy.deepcopy(orbitals))
 
 class Lattice:
     """A Lattice object represents a lattice of orbitals 
@@ -84,7 +86,7 @@ class Lattice:
     
     def __init__(self, unit_cell, num_cells, periodic_boundaries=None, precision=8):
         self.unit_cell = unit_cell
-        self.num_cells = num_cells
+        self.num_cells = copy.deepcopy(num_cells)
 
         self.precision = precision
         self.tol       = 10.0**(-precision)
-- 
2.43.0


From b156d757615c9417fdc77de7870fc2d48d46ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 28/40] fix: label_permutation copies the permutation it is
 given

---
 qosy/transformation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 57377bc..afc1b8f 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -6,6 +6,7 @@ space group symmetry, and a method for computing the effect
 of a Transformation on a Basis of OperatorStrings.
 """
 
+import copy
 import warnings
 import numpy as np
 import numpy.linalg as nla
@@ -323,7 +324,9 @@ def label_permutation(permutation):
     translation to the right can be made with
         >>> P = qosy.label_permutation([1,2,3,0])
     """
-    return Transformation(_permutation_rule, permutation)
+    # Copied, so that the Transformation does not change
+    # when the caller reuses the list or array.
+    return Transformation(_permutation_rule, copy.copy(permutation))
 
 def space_group_symmetry(lattice, R, d):
     """Create a space group symmetry specified by
-- 
2.43.0


From b2e9e95990d8c30b445ab69a1d6d958b0472cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 29/40] fix: gram_schmidt returns NaN when the first column
 vanishes

The first column was divided by its norm without comparing it with the
tolerance, so that a vanishing first column turned every column into NaN
instead of being discarded like any other dependent column.
---
 qosy/tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..c51d232 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -467,9 +467,7 @@ def gram_schmidt(matrix, tol=0.0):
             return (vec1.H).dot(vec2)[0,0]
         
     shift = 0
-    new_matrix[:,0] = matrix[:,0] / _norm(matrix[:,0])
-    
-    for ind_col_unshifted in range(1,k):
+    for ind_col_unshifted in range(k):
         ind_col = ind_col_unshifted - shift
         new_matrix[:,ind_col] = matrix[:,ind_col_unshifted]
         for ind_vec in range(ind_col):
-- 
2.43.0


From 7a6c5e3462006b8b8ec64b3e223f622832ed5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 30/40] fix: sparsify refuses the sparse matrices it documents

scipy.linalg.lu only takes arrays, so that a scipy.sparse.csr_matrix (a
documented input) raised a ValueError.
---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index c51d232..5e80317 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -558,6 +558,9 @@ def sparsify(vectors, orthogonalize=True, tol=1e-12):
 
     num_vectors = int(vectors.shape[1])
     
+    if ss.issparse(vectors):
+        vectors = vectors.toarray()
+    
     if num_vectors <= 1:
         return vectors
     
-- 
2.43.0


From 3bcf86fca2be5ad49be03e997e3c62d75b01fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 31/40] fix: structure_constants and all that build on it
 accept unknown operation modes silently

---
 qosy/algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..ad3b5c5 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -294,6 +294,9 @@ def structure_constants(basisA, basisB, operation_mode='commutator', return_exte
         >>> s_constants = qosy.structure_constants(basis, basis)
     """
     
+    if operation_mode not in ['product', 'commutator', 'anticommutator']:
+        raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
+
     basisC = Basis()
     
     matrix_data = dict()
-- 
2.43.0


From 2ae29212c05a04ad8127f16e38757cb4a7f3269b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 32/40] fix: symmetrize_basis averages over every group element
 exactly once

Redundant generators were counted twice, and the group generated by
several non-commuting generators was not completed, so that the
symmetrized operators were not invariant.
---
 qosy/symmetrization.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..b9cdcea 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -56,27 +56,20 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     symmetries.
     """
 
-    # Construct the symmetry group G from its generators.
+    # Construct the symmetry group G from its generators,
+    # with each of its elements exactly once.
     num_orbitals = len(group_generators[0].info)
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
-    G = [I]
-    G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
-    
-    while len(newG) != len(G):
-        G = newG
-        G_set = newG_set
-        
-        # Generate new group elements
+    G     = [I]
+    G_set = set([tuple(I.info)])
+    for g in G:
+        # Generate new group elements. They are visited in turn.
         for gen in group_generators:
-            for g in G:
-                perm       = compose_permutations(g.info, gen.info)
-                perm_tuple = tuple(perm)
-                if perm_tuple not in newG_set:
-                    newG_set.add(perm_tuple)
-                    perm_transformation = label_permutation(perm)
-                    newG.append(perm_transformation)
+            perm       = compose_permutations(g.info, gen.info)
+            perm_tuple = tuple(perm)
+            if perm_tuple not in G_set:
+                G_set.add(perm_tuple)
+                G.append(label_permutation(perm))
         
     # The symmetrized basis will be a list of Operators
     # that obey the given discrete group symmetries.
-- 
2.43.0


From 6a6248e6c5dc8958af8a47ed9d15ab73d4fb3df7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 33/40] fix: cluster_basis orders annihilation operators as the
 other fermion strings

c_{j_l} ... c_{j_1}, as documented and as convert() makes them. The
conversion_matrix between fermion and Majorana bases raised KeyError.
---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index ef8ecf4..a6cba60 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -860,7 +860,7 @@ def cluster_basis(k, cluster_labels, op_type, include_identity=False):
                             labels_backward = possible_labels_backward[ind_labels_backward]
                             
                             ops    = ['CDag']*len(labels_forward) + ['C']*len(labels_backward)
-                            labels = np.concatenate((labels_forward, labels_backward))
+                            labels = np.concatenate((labels_forward, labels_backward[::-1]))
                             
                             op_string = OperatorString(ops, labels, op_type, prefactor)
 
-- 
2.43.0


From e6de48237d917da23d2eda2f86fd105c77fe25c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 34/40] fix: distance_basis includes the identity when asked to

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index a6cba60..9429cdd 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -954,6 +954,6 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     
     total_basis = Basis()
     for cluster_labels in sorted_clusters:
-        total_basis += cluster_basis(k, cluster_labels, op_type)
+        total_basis += cluster_basis(k, cluster_labels, op_type, include_identity)
         
     return total_basis
-- 
2.43.0


From 6826df2fabdeabe89b8caf72ca869ae6b61134ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 35/40] fix: symmetrize_lattice uses the whole point group and
 the whole enlarged cell

The group was not completed (a single rotation gave only itself and the
identity), the unit cell was filled only in the last direction, and
atoms several lattice vectors apart were not seen to be equivalent.
---
 qosy/symmetrization.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index b9cdcea..eae9b40 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -174,12 +174,21 @@ def _remove_duplicate_atoms(lattice, tol=1e-12):
 
     sym_atom_info = list(zip(lattice.unit_cell.atom_positions, lattice.unit_cell.atom_orbitals))
 
+    lattice_vectors = lattice.unit_cell.lattice_vectors
+
     # Function for comparing equality of atoms.
     # Compares their positions and orbitals in
     # the lattice.
     def _equiv(infoA, infoB):
         (posA, orbsA) = infoA
         (posB, orbsB) = infoB
+
+        # Wrap one of the atoms around the periodic boundaries, as they
+        # can be any number of lattice vectors apart.
+        coords = nla.solve(np.array(lattice_vectors).T, posA - posB)
+        shift  = np.where(lattice.periodic_boundaries, np.round(coords), 0.0)
+        posB   = posB + np.dot(shift, lattice_vectors)
+        
         return lattice.distance(posA, posB) < tol and orbsA == orbsB
 
     # Remove duplicate atoms.
@@ -240,16 +249,15 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
     # The spatial dimension
     dim = lattice.dim
 
-    # Construct the point group G from its generators.
+    # Construct the point group G from its generators,
+    # with each of its elements exactly once.
     G = [np.eye(dim)]
-    newG = G + point_group_generators
-    while len(newG) != len(G):
-        G = newG
-        
-        # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
-        # Remove the duplicates
-        newG = remove_duplicates(newG)
+    for g in G:
+        # Generate new group elements. They are visited in turn.
+        for gen in point_group_generators:
+            new_g = np.dot(g, gen)
+            if not any(np.allclose(new_g, h) for h in G):
+                G.append(new_g)
 
     # Store the original lattice.
     orig_lattice         = copy.deepcopy(lattice)
@@ -267,11 +275,11 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
+            old_lattice = _expand_lattice(old_lattice, ind_lv, delta)
         
         # Symmetrize the atom positions for the new
         # unit cell.
-        new_lattice = _symmetrize_atoms(new_lattice, G, tol=tol)
+        new_lattice = _symmetrize_atoms(old_lattice, G, tol=tol)
 
         # Remove the duplicate atoms equivalent to
         # one another by lattice translations
-- 
2.43.0


From b6777f3202bd947e18dfae32350f690586791c85 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 36/40] fix: converting the fermion identity without the
 identity gives a zero operator

It raised ValueError, as did any operator that contains it.
---
 qosy/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..67674f6 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -204,7 +204,7 @@ def _convert_majorana_string(op_string, include_identity=False):
         else:
             raise ValueError('Invalid lex_order = {} and coeff = {}'.format(lex_order, coeff))
 
-    return Operator(np.array(coeffs_fermion), op_strings_fermion)
+    return Operator(np.array(coeffs_fermion), op_strings_fermion, 'Fermion')
 
 
 def _convert_fermion_string(op_string, include_identity=False):
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, 'Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From da4ca473299ce1bc71a6cf572be7490f6b3cd5bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 37/40] fix: generate_lie_algebra of a list of Operators ends
 on generic inputs

---
 qosy/algebra.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index ad3b5c5..27f94cd 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -646,25 +646,25 @@ def generate_lie_algebra(operators, tol=1e-12):
                     projector = ss.block_diag((projector, ss.csr_matrix((num_new_op_strings,num_new_op_strings), dtype=complex)), format='csc')
 
                 # Check whether opC is in the vector space
-                # currently spanned by vectors.
+                # currently spanned by vectors. The projection is
+                # done twice so that round-off does not build up.
                 vecC = opC.to_vector(combined_basis, fmt='csc')
-                
-                overlaps = projector.dot(vecC)
-                overlap  = (vecC.H).dot(overlaps)[0,0]
+
+                vecC = vecC - projector.dot(vecC)
+                vecC = vecC - projector.dot(vecC)
+                residual = np.abs((vecC.H).dot(vecC)[0,0])
 
                 # If it is not already in the vector space,
                 # add it to the vector space and update the
                 # projector into that space.
-                if np.abs(overlap - 1.0) > tol:
+                if residual > tol:
                     # Add the operator (in its original,
                     # non orthogonal form) to the lie algebra.
                     lie_algebra.append(opC)
 
-                    # Update the new vector so that is
-                    # orthogonal to the previous vectors
-                    # and normalized. Then add it to the vectors.
-                    vecC -= overlaps
-                    vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
+                    # The new vector is orthogonal to the previous
+                    # vectors. Normalize it and add it to the vectors.
+                    vecC /= np.sqrt(residual)
                     vectors = ss.hstack((vectors, vecC), format='csc')
 
                     # Update the projector.
-- 
2.43.0


From cca07c2d83424335038a971c4e8dd44aa4c773bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 38/40] fix: symmetrize_lattice refuses generators of an
 infinite group

---
 qosy/symmetrization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index eae9b40..d60a81c 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -256,9 +256,14 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
         # Generate new group elements. They are visited in turn.
         for gen in point_group_generators:
             new_g = np.dot(g, gen)
-            if not any(np.allclose(new_g, h) for h in G):
+            if not np.any(np.all(np.isclose(new_g, G), axis=(1,2))):
                 G.append(new_g)
 
+        # The largest point group of a lattice in up to
+        # four dimensions has this many elements.
+        if len(G) > 1152:
+            raise ValueError('The generators do not generate a finite point group.')
+
     # Store the original lattice.
     orig_lattice         = copy.deepcopy(lattice)
     orig_lattice_vectors = copy.deepcopy(orig_lattice.unit_cell.lattice_vectors)
-- 
2.43.0


From ad426fa00f1099be88337ac74442c5612e32f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 39/40] fix: selected_ci_greedy uses the dense solver for most
 of the eigenvectors

---
 qosy/algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 079ddcd..d5c13c8 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -931,7 +931,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         #plt.colorbar()
         #plt.show()
         
-        if len(basis) < 20 or num_vecs >= len(basis):
+        # (The sparse solver is for a few of the eigenvectors: it refuses
+        # to find almost all of them and is inaccurate for most of them.)
+        if len(basis) < 20 or 2*num_vecs >= len(basis):
             (evals, evecs) = nla.eigh(com_matrix.toarray())
         else:
             maxiter  = 10*int(com_matrix.shape[0])*maxiter_scale
-- 
2.43.0


From c7076e43816b019e168f5dbfd9300fd761a48ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:35 +0000
Subject: [PATCH 40/40] fix: selected_ci_greedy with a target_operator reports
 the norm of the operator it found

---
 qosy/algorithms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index d5c13c8..1d3f360 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -984,11 +984,11 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             # even though it is not an eigenstate of the commutant matrix.
             (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis, verbose=verbose)
 
-            # The eigenvectors are not eigenvectors for commuting with
-            # just the Hamiltonian in these cases.
-            if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
-                vec      = ss.csr_matrix(vector.reshape((len(basis), 1)), dtype=complex)
-                com_norm = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
+            # The eigenvectors might not be eigenvectors for commuting with
+            # just the Hamiltonian. And when there are many of them, they can
+            # be accurate to a few digits only.
+            vec      = ss.csr_matrix(vector.reshape((len(basis), 1)), dtype=complex)
+            com_norm = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
-- 
2.43.0

