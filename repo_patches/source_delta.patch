From b95791b1780c6594fe091dab94804de62a3b6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 01/80] fix: diagonalise environments as hermitian matrices,
 largest weight first

numpy eig returns non orthogonal eigenvectors for degenerate environments
(and eigenvalues in no order), so canonicalising a state with degenerate
or rank deficient Schmidt spectra changed the state.
---
 xmps/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..7703022 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -3,7 +3,7 @@ import unittest
 from numpy.random import randn
 from scipy.sparse.linalg import eigs as arnoldi
 from scipy.linalg import qr, expm, norm, svd
-from numpy.linalg import eig as neig, eigvals, inv
+from numpy.linalg import eig as neig, eigh, eigvals, inv
 from numpy import swapaxes, count_nonzero, diag, insert, pad, dot, argmax, sqrt
 from numpy import allclose, array, tensordot, transpose, all, identity, squeeze
 from numpy import isclose, mean, sign, kron, zeros, conj, max, concatenate, eye
@@ -238,8 +238,8 @@ def tr_svd(A, D):
 def diagonalise(M):
     """diagonalise: wrap eig better
        :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    S, V = eigh(M) # M is hermitian: eig would mix degenerate eigenvectors
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From 2a5e126a9fe6ee4018e996ff15f5b1d71a315337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 02/80] fix: one site expectation values of complex operators

E and E_ contracted the operator transposed, so <Sy> had the wrong sign
(Es, E_k and rho had it right).
---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..bcb2f21 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -922,7 +922,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -932,7 +932,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
-- 
2.43.0


From b42c4332f85a9ed55eb870210fdc90f74820d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 03/80] fix: fMPS(data, D=D) truncates instead of raising,
 fresh fMPS can be measured

The constructor canonicalised before it had set the data and the bond
dimension, and states made by fMPS().random(L, d, 1) or fMPS().load lacked
the canonical/orthogonal flags E and E_k read.
---
 xmps/fMPS.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index bcb2f21..a1d867c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -156,19 +156,18 @@ class fMPS(object):
         self.id = uuid.uuid4().hex # for memoization
         self.id_ = uuid.uuid4().hex # for memoization
         self.id__ = uuid.uuid4().hex # for memoization
+        self.canonical = False
+        self.orthogonal = False
         if data is not None:
             self.L = len(data)
             if d is not None:
                 self.d = d
             else:
                 self.d = data[0].shape[0]
+            self.D = max([max(x.shape[1:]) for x in data])
+            self.data = data
             if D is not None:
                 self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
-            self.data = data
-            self.canonical = False
-            self.orthogonal = False
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From b2349406efcb950e9200c06abbe30ad01dc04378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 04/80] fix: random product states have the local dimension
 asked for

random(L, d, 1) always returned qubits (with d recorded as asked) and kept
the form flags of whatever the object held before.
---
 xmps/fMPS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index a1d867c..d3e83a6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -407,7 +407,7 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        if D == 1:
+        if D == 1 and d == 2:
             self.D = 1
             # random product states
             V = randn(L, 3)
@@ -422,6 +422,8 @@ class fMPS(object):
             self.data = []
             for _, th, f in V:
                 self.data.append(ed(ed(array([cos(th/2), exp(1j*f*(1-int(real)))*sin(th/2)]), -1), -1))
+            self.canonical = False
+            self.orthogonal = False
             return self
 
         MPS = [randn(*((d,) + shape)) + (1-int(real))*1j*randn(*((d,) + shape))
-- 
2.43.0


From 1da252fa255e1c25a2c483b0885f2acf43463f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 05/80] fix: mixed_canonicalise records its orthogonality
 centre

right_canonicalise, which it calls, reset the recorded centre to 0, so E at
site 0 used a tensor that was not the centre.
---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d3e83a6..390ff9b 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -622,7 +622,6 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
 
         def split(M):
@@ -646,6 +645,7 @@ class fMPS(object):
 
         self.canonical = True
         self.orthogonal = True
+        self.oc = oc
         return self
 
     def right_orthogonalise(self, fr=0, to=None):
-- 
2.43.0


From a3d4f7a3984bd158315283d65300409c294a6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 06/80] fix: forget the canonical form when tensors are changed
 in place

Item assignment, two site gates, post selection, partial sweeps and
dynamical_expand left the flags and the orthogonality centre of the form
the state had before, so E, E_k and rho measured with tensors that were no
longer the centre. post_select also left the length one too long.
---
 xmps/fMPS.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 390ff9b..1eb75f5 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -187,6 +187,9 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        # whatever form the tensors were in, they may not be now
+        self.canonical = False
+        self.orthogonal = False
 
     def __eq__(self, other):
         """__eq__
@@ -661,6 +664,8 @@ class fMPS(object):
                 self.data[m-1] = self.data[m-1]@R
             else:
                 self.norm_ = R
+        self.canonical = False
+        self.orthogonal = False
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = 0
@@ -679,6 +684,8 @@ class fMPS(object):
                 self.data[m+1] = R@self.data[m+1]
             else:
                 self.norm_ = R
+        self.canonical = False
+        self.orthogonal = False
         if fr == 0 and to == self.L:
             self.orthogonal = True
             self.oc = self.L
@@ -861,6 +868,9 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.canonical = False
+        self.orthogonal = False
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -977,7 +987,7 @@ class fMPS(object):
         if self.bond_dimension == 1 and single_string:
             return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
         else:
-            if not hasattr(self, 'oc') or self.oc not in sites:
+            if (not self.canonical and not self.orthogonal) or not hasattr(self, 'oc') or self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
             links = [([-i, i, i+1] if i!= len(sites) else [-i, i, 2*len(sites)+1]) for i in range(1, len(sites)+1)]+\
                     [([-i, i, i+1] if i != len(sites)+1 else [-i, 1, i+1]) for i in range(len(sites)+1, 2*len(sites)+1)]
@@ -1156,6 +1166,8 @@ class fMPS(object):
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
+        self.canonical = False
+        self.orthogonal = False
 
         return self
 
-- 
2.43.0


From 00700417c36d1bfdf0fb265655b23fa4ab1350b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 07/80] fix: canonicalise again after cutting bonds of zero
 weight, so sites stay isometries

---
 xmps/fMPS.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 1eb75f5..7c25ab3 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -514,15 +514,21 @@ class fMPS(object):
 
             Ls = [ones_like(Ls[-1])] + Ls  # Ones on each end
 
+            cut = False
             for m in range(len(self.data)):
                 # sort out the rank (tDj is tilde)
                 Dj = Ls[m].shape[0]
                 tDj = rank(Ls[m])
+                cut = cut or tDj < Dj
                 P = concatenate([identity(tDj), zeros((tDj, Dj-tDj))], axis=1)
                 self.data[m-1] = self.data[m-1] @ cT(P)
                 self.data[m] = P @ self.data[m]
                 Ls[m] = P @ Ls[m] @ cT(P)
 
+            if cut:
+                # the sites left of a cut bond might not be isometries anymore
+                return self.right_canonicalise(D, testing)
+
             self.Ls = Ls  # store all the singular values
 
         if testing:
@@ -592,15 +598,24 @@ class fMPS(object):
 
             Ls.append(ones_like(Ls[0]))  # Ones on each end
 
+            cut = False
             for m in range(len(self.data)):
                 # sort out the rank (tDj is tilde)
                 Dj = Ls[m].shape[0]
                 tDj = rank(Ls[m])
+                cut = cut or tDj < Dj
                 P = concatenate([identity(tDj), zeros((tDj, Dj-tDj))], axis=1)
                 self.data[m-1] = self.data[m-1] @ cT(P)
                 self.data[m] = P @ self.data[m]
                 Ls[m] = P @ Ls[m] @ cT(P)
 
+            if cut:
+                # the sites right of a cut bond might not be isometries anymore
+                norm_ = self.norm_
+                self.left_canonicalise(D, testing)
+                self.norm_ = norm_@self.norm_
+                return self
+
             self.Ls = Ls  # store all the singular values
 
         if testing:
-- 
2.43.0


From b6fa1c1760ee37d6b9b24c390a9c42d17adb26bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 08/80] fix: list of reduced density matrices of a product
 state has unit traces

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7c25ab3..1d7a076 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1000,7 +1000,7 @@ class fMPS(object):
         :param single_string: whether to return a list of density matrices if D=1
         '''
         if self.bond_dimension == 1 and single_string:
-            return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
+            return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]])/norm(self[i])**2 for i in sites]
         else:
             if (not self.canonical and not self.orthogonal) or not hasattr(self, 'oc') or self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
-- 
2.43.0


From 90f3abd4a545d1d536c9416966342fa4dafda5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 09/80] fix: rho_proj traces |self><other|, not |self><other*|

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 1d7a076..a74c461 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1017,7 +1017,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i])@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From 00fcd35ab348ed980977ed21d32f3f356d12b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 10/80] fix: ncon does not append to the caller's contraction
 order

---
 xmps/ncon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..d78ad8d 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -38,8 +38,11 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
     else:
         v = list(map(list, v))
 
-    if order == None:
+    if order is None:
         order = create_order(v)
+    else:
+        # The order is changed below, the caller's list should not be.
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From 099685fb31cbd08c4ec284b3adbac0434f79aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 11/80] fix: loc_3 puts the second factor second, split_up with
 unequal factors

---
 xmps/tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 7703022..e7ff8cc 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -408,7 +408,7 @@ def loc_3(rs, tu, vw, d):
     v, w = vw
     t, u  = tu
 
-    index = (d**2*r + d*v+t, d**2*s + d*w + u)
+    index = (d**2*r + d*t+v, d**2*s + d*u + w)
     return index
 
 def split_up_3(H, d):
@@ -419,7 +419,7 @@ def split_up_3(H, d):
                 for l in range(d):
                     for m in range(d):
                         for n in range(d):
-                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), 2)]
+                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), d)]
     return h
 
 def split_up(H, d=None, p=None, q=None):
@@ -434,6 +434,7 @@ def split_up(H, d=None, p=None, q=None):
     if d is None:
         if p is None and q is None:
             raise Exception
+        d = H.shape[0]//p
 
     h = zeros((d, d, p, q)) + 1j*zeros((d, d, p, q))
     for i in range(d):
-- 
2.43.0


From a090046d54251031843e62f81f0b4e2f97426634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 12/80] fix: energy of a list of terms is the energy, not the
 energy over the length

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index a74c461..e673467 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1033,7 +1033,7 @@ class fMPS(object):
                 h = h.reshape(*[self.d]*4)
                 C = ncon([h]+self.data[m:m+2], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]])
                 e.append(ncon([c(l(m-1))@self.data[m].conj(), self.data[m+1].conj()@c(r(m+1))]+[C], [[1, 3, 4], [2, 4, 5], [1, 2, 3, 5]]))
-            return re(sum(e))/self.L
+            return re(sum(e))
         else:
             return self.E_L(H)
 
-- 
2.43.0


From 8af42803b58b2b65b0b16ab66b714644fa3cdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 13/80] fix: Hamiltonian does not rewrite the caller's
 dictionary of strings

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..a32d8b1 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,7 +18,7 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
+            self.strings = dict(strings) # the caller's dictionary stays as it is
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
-- 
2.43.0


From 619b64dc52a99ebd7539ca82133ec3ef547bb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 14/80] fix: Hamiltonian conversions: two-site chain, several
 lengths, from_matrix

---
 xmps/Hamiltonians.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index a32d8b1..f5dfe26 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -24,8 +24,8 @@ class Hamiltonian(object):
                     self.strings['I'+key] = val
                     self.strings[key+'I'] = val
                     self.strings.pop(key)
+        self.d = d # local hilbert space dimension
         if matrices is not None:
-            self.d = d # local hilbert space dimension
             self.matrices = matrices
 
     @property
@@ -115,7 +115,7 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            return [self.to_matrix()] # both ends belong to this bond only
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
@@ -132,7 +132,8 @@ class Hamiltonian(object):
         if not self.has_matrices:
             if self.has_strings:
                 assert L is not None
-                self.matrices = self.to_matrices(L)
+                # not kept: the next request may be for another length
+                return Hamiltonian(matrices=self.to_matrices(L), d=self.d).to_full()
             else:
                 raise Exception('No strings or matrices')
         if self.has_matrices:
-- 
2.43.0


From f3b27a7e66c7840ba51af2f912e10f1656c75f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 15/80] fix: environments off a canonical form are not
 diagonal, rk4 is fourth order again

---
 xmps/fMPS.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e673467..907d042 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -813,16 +813,22 @@ class fMPS(object):
     def get_envs(self, store_envs=False):
         """get_envs: return all envs (slow). indexing is a bit weird: l(-1) is |=
            returns: fns tuple of functions l, r"""
+        def clean(e):
+            # diagonal in canonical form, up to rounding: off a canonical form
+            # (e.g. at the midpoints of rk4) the other elements matter
+            d = diag(diag(re(e)))
+            return d if allclose(e, d, rtol=0, atol=1e-12*norm(d)) else e
+
         def get_l(mps):
             ls = [array([[1]])]
             for n in range(len(mps)):
-                ls.append(diag(diag(sum(re(cT(mps[n]) @ ls[-1] @ mps[n]), axis=0))))
+                ls.append(clean(sum(cT(mps[n]) @ ls[-1] @ mps[n], axis=0)))
             return lambda n: ls[n+1]
 
         def get_r(mps):
             rs = [array([[1]])]
             for n in range(len(mps))[::-1]:
-                rs.append(diag(diag(sum(re(mps[n] @ rs[-1] @ cT(mps[n])), axis=0))))
+                rs.append(clean(sum(mps[n] @ rs[-1] @ cT(mps[n]), axis=0)))
             return lambda n: rs[::-1][n+1]
 
         if store_envs:
@@ -1231,15 +1237,15 @@ class fMPS(object):
 
                     Am, Am_1 = self.data[m:m+2]
                     C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                    K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-                    e.append(trace(K@r(m+1)))
+                    K = ncon([l(m-1).T@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                    e.append(trace(K.T@r(m+1)))
                     #C -= trace(K@r(m+1))
                     #K -= trace(K@r(m+1))
 
                     if m==i:
-                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m)).T@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
                     if m==i-1:
-                        B += -1j *ncon([l(m-1)@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+                        B += -1j *ncon([l(m-1).T@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
                     if m < i-1:
                         B += -1j *ncon([K, Rs(m+2)], [[1, 2], [1, 2, -1, -2, -3]])
                 self.e = e
@@ -1937,7 +1943,8 @@ class fMPS(object):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        x = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([x, c(x)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
@@ -2185,7 +2192,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        x = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([x, c(x)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From c8a35102f7481360062b06c1e0cc375c19b3b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 16/80] fix: a trajectory records what it visits: structures,
 bond dimensions, exact histories, clearing

---
 xmps/fTDVP.py | 133 ++++++++++++++++++++++----------------------------
 1 file changed, 58 insertions(+), 75 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..ff8ef0d 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -33,6 +33,7 @@ import numpy as np
 
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
+from scipy.integrate import solve_ivp
 
 from matplotlib import pyplot as plt
 from functools import reduce
@@ -63,21 +64,37 @@ class Trajectory(object):
         self.Ds = [self.mps.D] if self.mps is not None else []
         self.fullH = fullH
         self.mps_history = []
+        self.structures = []  # shapes of the tensors of each recorded state
         self.run_name = run_name
         self.continuous = continuous
 
+    def record(self, mps):
+        """record: add mps to the history. Ds has the bond dimension of each
+        recorded state, then the one of the current state
+
+        :param mps: state to record
+        """
+        n = len(self.mps_history)
+        self.mps_history.append(mps.serialize(real=True))
+        self.structures = self.structures[:n] + [[x.shape for x in mps.data]]
+        self.Ds = self.Ds[:n] + [mps.bond_dimension]*2
+
+    def recorded(self, n):
+        """recorded: nth recorded state
+        """
+        return fMPS().deserialize(self.mps_history[n], real=True,
+                                  structure=self.structures[n])
+
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         return (mps + mps.dA_dt(H, fullH=self.fullH)*dt).left_canonicalise(mps.D)
 
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         k1 = mps.dA_dt(H, fullH=self.fullH)*dt
         k2 = (mps+k1/2).dA_dt(H, fullH=self.fullH)*dt
         k3 = (mps+k2/2).dA_dt(H, fullH=self.fullH)*dt
@@ -88,8 +105,7 @@ class Trajectory(object):
     def invfree(self, mps, dt, W=None, store=True):
         W = W if W is not None else self.W
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         A = tdvp(mps.data, W, 1j*dt/2)
@@ -99,8 +115,7 @@ class Trajectory(object):
         """invfree4 fourth order symmetric composition
         """
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         a1, a2, a3 = b5, b4, b3 = (146+5*sqrt(19)) / \
@@ -125,7 +140,7 @@ class Trajectory(object):
         for t in tqdm(T):
             mps = self.euler(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.recorded(-1)
         return self
 
     def rk4int(self, T):
@@ -137,7 +152,7 @@ class Trajectory(object):
         for t in tqdm(T):
             mps = self.rk4(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.recorded(-1)
         return self
 
     def invfreeint(self, T, D=None, order='low'):
@@ -162,12 +177,12 @@ class Trajectory(object):
             elif order == 'low':
                 mps = self.invfree(mps, T[1]-T[0])
 
-        self.mps = fMPS().deserialize(self.mps_history[-1], L, d, D, real=True)
+        self.mps = self.recorded(-1)
         return self
 
     def expand(self, D):
         self.mps.expand(D)
-        self.Ds[-1] = D
+        self.Ds[-1:] = [self.mps.bond_dimension]
         return self
 
     def dynamical_expand(self, D, dt, H=None):
@@ -175,12 +190,12 @@ class Trajectory(object):
         H = self.H if H is None and self.H is not None else H
 
         self.mps.dynamical_expand(self.H, dt, D, None)
-        self.Ds[-1] = D
+        self.Ds[-1:] = [self.mps.bond_dimension]
         return self
 
     def contract(self, D):
         self.mps.left_canonicalise(D)
-        self.Ds[-1] = D
+        self.Ds[-1:] = [self.mps.bond_dimension]
         return self
 
     def odeint(self, T):
@@ -193,8 +208,8 @@ class Trajectory(object):
         """
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
+        structure = [x.shape for x in mps.data]
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -203,26 +218,18 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return fMPS().deserialize(v, real=True, structure=structure)\
+                .dA_dt(H, fullH=self.fullH)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
-        traj = Q.y.T
+                      max_step=T[1]-T[0])
         bar.close()
 
-        self.mps_history = traj
-        self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
+        for v in Q.y.T:
+            self.record(fMPS().deserialize(v, real=True, structure=structure))
+        self.mps = self.recorded(-1)
         return self
 
     def edint(self, T):
@@ -243,6 +250,7 @@ class Trajectory(object):
         self.psi = self.ed_history[-1]
         self.mps = fMPS().left_from_state(
             self.psi.reshape([self.mps.d]*self.mps.L))
+        self.Ds[-1:] = [self.mps.bond_dimension]
         return self
 
     def lyapunov2(self, T, D=None, t_burn=0):
@@ -486,28 +494,17 @@ class Trajectory(object):
 
     def mps_list(self):
         if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+            L, d = self.mps.L, self.mps.d
+            return [fMPS().left_from_state(x.reshape([d]*L)).left_canonicalise()
+                    for x in tqdm(self.ed_history)]
         assert self.mps_history
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
+        return self.deserialize()
 
     def mps_evs(self, ops, site):
-        if hasattr(self, 'ed_history') and not self.mps_history:
-            for x in self.ed_history:
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
-        assert self.mps_history
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return array([mps.Es(ops, site)
-                      for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history))])
+        return array([mps.Es(ops, site) for mps in self.mps_list()])
 
     def mps_energies(self):
         assert self.H is not None
-        assert self.mps_history
         return np.array([mps.left_canonicalise().energy(self.H, fullH=self.fullH) for mps in self.mps_list()])
 
     def ed_energies(self):
@@ -519,52 +516,34 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        return [self.recorded(n) for n in range(len(self.mps_history))]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
             print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(
-                    x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            mpss = (fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
+                    for x in tqdm(self.ed_history))
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            sch = []
-            for mps in (fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)):
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            mpss = self.deserialize()
+        return [[diag(x) for x in mps.left_canonicalise().Ls] for mps in mpss]
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            psi_0 = self.ed_history[0]
+            return [np.abs(c(psi_0)@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
-            lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
-                lss.append(np.abs(psi_0.overlap(psi)))
-            return lss
+            psi_0 = self.recorded(0)
+            return [np.abs(psi_0.overlap(psi)) for psi in self.deserialize()]
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
+        sch = self.schmidts()
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = self.schmidts()
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
@@ -574,7 +553,11 @@ class Trajectory(object):
 
     def clear(self):
         self.mps_history = []
+        self.structures = []
         self.mps = self.mps_0.copy()
+        self.Ds = [self.mps.D]
+        if hasattr(self, 'ed_history'):
+            del self.ed_history
         if hasattr(self, 'lys'):
             delattr(self, 'lys')
 
-- 
2.43.0


From 2d12e81da3e9cf9345cabd127146150c45affdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 17/80] fix: entropies along a trajectory with vanishing
 Schmidt weights

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index ff8ef0d..777016f 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -539,7 +539,7 @@ class Trajectory(object):
 
     def von_neumann(self, i=None):
         sch = self.schmidts()
-        S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
+        S_max = array([max([-re(s[s > 0]@log(s[s > 0])) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-- 
2.43.0


From 4a36b2d67cfadb6b7792988731e37cdfe8b6d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 18/80] fix: tangent vectors unpack onto the sites they were
 packed from

---
 xmps/fMPS.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 907d042..e5b9cc6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2036,14 +2036,11 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
-        S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
-        vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        # sites without tangent directions (full bonds) can be anywhere
+        sites = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
+        Bs = [zl(A) for A in self.data]
+        for n, x in zip(sites, chop(v, cs([prod(shapes[n]) for n in sites]))):
+            Bs[n] = inv(ch(l(n-1)))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From 012c8c50f769bb909b367746d983d6f6cadc34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 19/80] fix: response blocks are remembered by pairs of sites,
 any local dimension, tangent sites anywhere

---
 xmps/fMPS.py | 83 +++++++++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 43 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e5b9cc6..b2d349d 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1208,7 +1208,6 @@ class fMPS(object):
         :param self: matrix product state @ current time
         :param H: Hamiltonian
         """
-        self.dA_cache = {}
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs(True)
         prs_vLs = [self.left_null_projector(n, l, get_vL=True) for n in range(self.L)] if prs_vLs is None else prs_vLs
@@ -1228,7 +1227,6 @@ class fMPS(object):
 
                 R = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Rs = self.left_transfer(R, 0, i) # list of E**k @ R - see left_transfer docs
-                self.dA_cache[str(i)] = Rs
 
                 for m, h in reversed(list(enumerate(H))):
                     if m > i:
@@ -1278,8 +1276,10 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
-        ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
-                    td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
+        # the environments belong to the inner product of the tangent space
+        B = [l(j-1)@dA[j]@r(j) for j in range(L)]
+        ddA = [sum([td(down(i, j), c(B[j]), [[3, 4, 5], [0, 1, 2]]) +
+                    td(up(i, j),     B[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
 
         return self.extract_tangent_vector(ddA)
@@ -1349,14 +1349,15 @@ class fMPS(object):
 
         ## non unitary (from projection): -<d_id_kψ|(d_t |ψ> +iH|ψ>) (dA_k*) (should be zero for no projection)
         #-<d_id_kψ|d_jψ> dA_j/dt (dA_k*)
-        def Γ2(i, k): return self.christoffel(i, k, min(i, k), envs=(l, r), prs_vLs=prs_vLs, closed=(None, None, l(min(i, k)-1)@dA_dt[min(i, k)]@r(min(i, k))))
+        def Γ2(i, k): return self.christoffel(i, k, min(i, k), envs=(l, r), prs_vLs=prs_vLs, id=id, closed=(None, None, l(min(i, k)-1)@dA_dt[min(i, k)]@r(min(i, k))))
 
         #-i<d_id_k ψ|H|ψ> (dA_k*)
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        # sites without tangent directions (full bonds) can be anywhere
+        sites = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0]
+        shapes = list(cs([prod(sh[n]) for n in sites]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1368,7 +1369,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -1411,12 +1412,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[i_, j_]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[j_, i_],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1444,7 +1445,7 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(d, d, d, d) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
@@ -1522,7 +1523,7 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(d, d, d, d) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
@@ -1658,7 +1659,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[i_, j_] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1675,12 +1676,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[i_, j_]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[j_, i_],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1718,13 +1719,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[i, j] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[i, j]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1822,7 +1823,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[i_, j_] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1836,16 +1837,17 @@ class fMPS(object):
             # we only don't try the cache on the first call from jac
             self.christ_ij_mem = {}
             self.christ_tot_ij_mem = {}
-        else:
-            # read from cache:
+        elif all(x is None for x in closed):
+            # read from cache (the tensor with closed indices depends on what
+            # they are closed with):
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[i, j, k]
 
-            ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
-                           [3, 4, 5, 0, 1, 2])
+            ## have we cached its transpose?
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[j, i, k],
+                           [3, 4, 5, 0, 1, 2, 6, 7, 8])
 
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs() if envs is None else envs
@@ -1887,15 +1889,10 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
-                            Rs = self.dA_cache[str(j)]
-                        else:
-                            R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
-                            Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
-                    else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                    if (i, j) not in self.christ_ij_mem:
+                        R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
+                        self.christ_ij_mem[i, j] = self.left_transfer(R, i, j)
+                    Rs = self.christ_ij_mem[i, j]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1923,11 +1920,11 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
-        else:
-            return Γ_c
+        if all(x is None for x in closed):
+            self.christ_tot_ij_mem[i, j, k] = Γ_c
+        return Γ_c
 
     def left_null_projector(self, n, l=None, get_vL=False, store_envs=False, vL=None):
         """left_null_projector:           |
-- 
2.43.0


From 8d54dd980cf5ca42f19e9e6588b1b4f776f51a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 20/80] fix: response blocks from the full matrix

---
 xmps/fMPS.py | 78 ++++++++++++++++++----------------------------------
 1 file changed, 27 insertions(+), 51 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index b2d349d..658612b 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1396,6 +1396,24 @@ class fMPS(object):
         J = kron(Sz, re(J2_)) + kron(eye(2), re(J1_)) + kron(Sx, im(J2_)) + kron(-1j*Sy, im(J1_))
         return J
 
+    def tangent_states(self, sites, inv_ch_l, inv_ch_r, vL):
+        '''dense derivatives of the state at sites (ascending): the first index
+        is the state, then a pair of indices of the tangent space for each site
+        '''
+        v = ones((1, 1, 1))
+        shapes = []
+        for m, A in enumerate(self.data):
+            A = inv_ch_l(m-1)@vL(m) if m in sites else A
+            # v: states, open indices, bond
+            v = ncon([v, A], [[-1, -3, 1], [-2, 1, -4]])
+            v = v.reshape(v.shape[0]*v.shape[1], *v.shape[2:])
+            if m in sites:
+                R = inv_ch_r(m)
+                shapes += [v.shape[-1], len(R)]
+                v = ncon([v, R], [[-1, -2, -3], [-4, -5]])
+                v = v.reshape(v.shape[0], prod(v.shape[1:4]), v.shape[-1])
+        return v.reshape(v.shape[0], *shapes)
+
     def F1(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
         '''<d_iψ|H|d_jψ>
         '''
@@ -1617,37 +1635,12 @@ class fMPS(object):
                         assert allclose(norm(td(P, l(m)@Am_1, [[3, 4, 5], [0, 1, 2]])), 0)
                         assert allclose(norm(td(Q, l(m)@c(Am_1), [[0, 1, 2], [0, 1, 2]])), 0)
 
-        elif fullH:
-            i, j = (i_, j_)
-            H = H.reshape([self.d, self.d]*self.L)
-            links = self.links(True)
-            bottom = [pr(m) if m==i else c(inv(r(m-1)))@a.conj() if m==i+1 else a.conj() for m, a in enumerate(A)]
-            top = [c(pr(m)) if m==j else c(inv(r(m-1)))@a.conj() if m==j+1 else a.conj() for m, a in enumerate(A)]
-            if i!=L-1 and j!=L-1:
-                links[i] = links[i][:2] + [-1, -2]
-                links[i+1][1] = -3
-                links[L+1+j] = links[L+1+j][:2] + [-4, -5]
-                links[L+1+j+1][1] = -6
-            elif i!=L-1:
-                links[i] = links[i][:2] + [-1, -2]
-                links[i+1][1] = -3
-                links[L+1+j] = links[L+1+j][:2] + [-4, -5]
-                links[L-1][-1] = -6
-            elif j!=L-1:
-                links[i] = links[i][:2] + [-1, -2]
-                links[2*L][-1] = -3
-                links[L+1+j] = links[L+1+j][:2] + [-4, -5]
-                links[L+1+j+1][1] = -6
-            else:
-                links[i] = links[i][:2] + [-1, -2]
-                links[L+1+j] = links[L+1+j][:2] + [-4, -5]
-            G = ncon(bottom+[H]+top, links)
-            if i==L-1 and j==L-1:
-                G = ed(ed(G, -1), 2)
-            return G
-
+        else:
+            i, j = (j_, i_) if j_<i_ else (i_, j_)
+            ti, tj = [self.tangent_states([n], inv_ch_l, inv_ch_r, vL) for n in (i, j)]
+            G_ = td(c(ti), td(H.reshape(d**L, d**L), tj, [1, 0]), [0, 0])
 
-        if testing:
+        if testing and not fullH:
             # if testing is on, we compute the whole thing
             # with more checks and in a different way
             def gauge(G, i, j):
@@ -1793,28 +1786,11 @@ class fMPS(object):
                                        inv(r(i))],
                                        [[-1, -2, 1, -4, -5, -6], [1, -3]])
 
-        elif fullH:
-            H = H.reshape([self.d, self.d]*self.L)
-            if i==j:
-                G = zeros((*A[i].shape, *A[j].shape))
-            else:
-                links = self.links(True)
-                if i==j-1:
-                    bottom = [pr(i) if m==i else ncon([c(r(j-1)), pr(j)], [[-2, 1], [-1, 1, -3, -4]]) if m==j else a.conj() for m, a in enumerate(A)]
-                else:
-                    bottom = [pr(m) if (m==i or m==j) else a.conj() for m, a in enumerate(A)]
-                    bottom = [c(inv(r(m-1)))@a.conj() if m==i+1 or m==j+1 else a for m, a in enumerate(bottom)]
-                top = A
-                links[i] = links[i][:2]+[-1, -2]
-                links[i+1][1] = -3
-                links[j] = links[j][:2]+[-4, -5]
-                if j == L-1:
-                    links[-1][-1] = -6
-                else:
-                    links[j+1][1] = -6
-                G = ncon(bottom+[H]+top, links)
+        else:
+            tij = self.tangent_states([i, j], inv_ch_l, inv_ch_r, vL)
+            G_ = td(c(tij), H.reshape(d**L, d**L)@self.recombine().reshape(-1), [0, 0])
 
-        if testing:
+        if testing and not fullH:
             def gauge(G, i, j):
                 return ncon([G, inv(ch(l(i-1)))@vL(i), inv(ch(l(j-1)))@vL(j), inv(ch(r(i))), inv(ch(r(j)))],
                             [[1, 3, 2, 4], [-1, -2, 1], [-4, -5, 2], [-3, 3], [-6, 4]])
-- 
2.43.0


From 158ac45e9ac23b9f64f07333fc94665223aa44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 21/80] fix: response blocks <d_i psi|H|d_j psi> for complex
 terms and distant sites

---
 xmps/fMPS.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 658612b..30a4599 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -858,7 +858,7 @@ class fMPS(object):
         Rs = [op]
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
-            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
+            Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
         return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
 
     def links(self, k=None, op=True):
@@ -1467,7 +1467,7 @@ class fMPS(object):
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
-                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-1, -3], [-2, -4]]), i, L-1)
+                    Lbs_ = self.right_transfer(ncon([inv_ch_r(i), inv_ch_r(i)], [[-2, -3], [-1, -4]]), i, L-1)
                     Rds_ = self.left_transfer(Rd_, 0, i)
 
                     self.F1_i_mem_[str(i)] = (Lbs_, Rds_)
@@ -1478,7 +1478,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1497,24 +1497,24 @@ class fMPS(object):
                             Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
                             #AAHAA
                             Lbs__ = sum(cT(vL(i))@vL(i), axis=0)
-                            G_ += ncon([tr(Lbs_(m)@Kr_, 0, -1, -2), Lbs__], [[-2, -4], [-1, -3]])
+                            G_ += ncon([td(Lbs_(m), Kr_, [[-2, -1], [0, 1]]), Lbs__], [[-2, -4], [-1, -3]])
                     Am, Am_1 = self.data[m:m+2]
                     if m==i:
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1524,7 +1524,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1544,9 +1544,9 @@ class fMPS(object):
                 H = [h.reshape(d, d, d, d) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
-                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
+                Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -8], [-6, -7]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1563,7 +1563,7 @@ class fMPS(object):
                                 #AAHAA
                                 Am, Am_1 = self.data[m:m+2]
                                 Kr_ = ncon([Am_1@r(m+1), c(Am_1), Am, c(Am), h], [[2,4,1], [3,5,1], [6,-1,4], [7,-2,5], [7,3,6,2]])
-                                G += tr(Lbs(m)@Kr_, 0, -1, -2)
+                                G += td(Lbs(m), Kr_, [[-2, -1], [0, 1]])
 
                         Am, Am_1 = self.data[m:m+2]
 
@@ -1571,18 +1571,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From a00377e5830bbe52324a3e766de196bc709ccea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 22/80] fix: fMPS files keep the actual bond dimension, load
 leaves its object alone, one-site structures

store wrote self.D, which may exceed every bond once bonds of zero weight have
been cut, so that load failed or misread the file; load overwrote length,
local dimension and D of the object it was called on; create_structure failed
for a single site.
---
 xmps/fMPS.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 30a4599..92e4f7e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -457,8 +457,8 @@ class fMPS(object):
         if L % 2 == 0:
             structure = left + transpose(left[::-1])
         else:
-            structure = left + [(left[-1][-1], transpose(left[::-1])[0][0])] +\
-                        transpose(left[::-1])
+            mid = left[-1][-1] if left else 1
+            structure = left + [(mid, mid)] + transpose(left[::-1])
         if phys:
             return [(self.d, *st) for st in structure]
         else:
@@ -1079,7 +1079,8 @@ class fMPS(object):
                            but bd varies along chain.
         """
         if not structured:
-            save(filename, ct([array([self.L, self.d, self.D]), self.serialize()]))
+            # self.D may be larger than any bond once bonds have been cut
+            save(filename, ct([array([self.L, self.d, self.bond_dimension]), self.serialize()]))
         else:
             st = reduce(tuple.__add__, [x.shape for x in self.data])
             st = (len(st),)+st
@@ -1098,8 +1099,8 @@ class fMPS(object):
             return self.deserialize(tensors, structure=st)
         else:
             params, arr = chop(load(filename), [3])
-            self.L, self.d, self.D = map(lambda x: int(re(x)), params)
-            return self.deserialize(arr, self.L, self.d, self.D)
+            L, d, D = map(lambda x: int(re(x)), params)
+            return self.deserialize(arr, L, d, D)
 
     def projection_error(self, H, dt):
         """projection_error: error in projection to mps manifold
-- 
2.43.0


From 853ae00bcf06203527afc3f0c07e7b646e33d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 23/80] fix: one-site expectations of infinite states for
 complex operators, in every form

E, Es and ivMPS.E contracted the transposed operator; the symmetric form was
not normalised; forms were compared by identity of strings; E without a form
and overlap changed the gauge of their operands behind the caller's back;
copies lost the weights their form refers to.
---
 xmps/iMPS.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..99faf16 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -260,8 +260,9 @@ class iMPS(object):
 
     def copy(self):
         A = iMPS(self.data.copy())
-        if hasattr(self, 'r') or hasattr(self, 'l'):
-            A.l, A.r = self.l, self.r
+        for name in ('l', 'r', 'L', 'canonical'):
+            if hasattr(self, name):
+                setattr(A, name, getattr(self, name))
         return A
 
     def random(self, d, D, period=1):
@@ -374,12 +375,12 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
-            sqrtL_ = diag(sqrt(L))
+        elif hand == 'm':
+            sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
         if to_vidal:
@@ -406,7 +407,7 @@ class iMPS(object):
         return self.l, self.r
 
     def overlap(self, other):
-        A, B = self.left_canonicalise()[0], other.left_canonicalise()[0]
+        A, B = self.copy().left_canonicalise()[0], other.copy().left_canonicalise()[0]
         return np.abs(Map(A, B).left_fixed_point()[0])**2
 
     def E(self, op, c=None):
@@ -420,18 +421,18 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
-            G, L = self.canonicalise(to_vidal=True).data[0]
+            G, L = self.copy().canonicalise(to_vidal=True).data[0]
             circle = tr(G.dot(L).dot(L).dot(H(G)).dot(L).dot(L), axis1=1, axis2=3)
             #  - L - G - L -
             # |      |0     |       |0
@@ -453,23 +454,23 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
-            G, L = self.canonicalise(to_vidal=True).data[0]
+            G, L = self.copy().canonicalise(to_vidal=True).data[0]
             circle = tr(G.dot(L).dot(L).dot(H(G)).dot(L).dot(L), axis1=1, axis2=3)
             #  - L - G - L -
             # |      |0     |       |0
@@ -813,4 +814,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tensordot(circle, op, [[0, 1], [1, 0]]))
-- 
2.43.0


From f9f2248be5ec3493864779acb79f481d1e6de8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 24/80] fix: environments, energy and time derivative of
 infinite states off the real diagonal gauge

The left environment was the transposed one, paired with the right one as if
it were not; energies were not those of the normalised state; the sum over
distant terms (Lh, Rh) mixed both conventions, so that dA_dt was wrong for
complex states; newton steps for that linear equation could divide by zero;
bond dimension one was refused; get_envs and right_null_projector could not
be called.
---
 xmps/iMPS.py | 94 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 57 insertions(+), 37 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 99faf16..11be5d3 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -9,12 +9,12 @@ from numpy import real as re, imag as im, copy, swapaxes as sw
 from numpy import all, eye, isclose, reshape, swapaxes, trace as tr
 from numpy import concatenate, array, stack, sum, identity, zeros, abs 
 from numpy import sqrt, real_if_close, around, prod, sign, newaxis
-from numpy import concatenate as ct, split as chop, save, load
+from numpy import concatenate as ct, split as chop, save, load, squeeze
 
 from numpy.linalg import cholesky, eigvals, svd, inv, norm
 from numpy.linalg import inv, cholesky as ch
 
-from scipy.sparse.linalg import LinearOperator, eigs as arnoldi
+from scipy.sparse.linalg import LinearOperator, gmres, eigs as arnoldi
 from scipy.linalg import svd as svd_s, cholesky as cholesky_s
 from scipy.linalg import null_space as null
 from scipy.optimize import root
@@ -33,6 +33,15 @@ from .spin import spins
 Sx, Sy, Sz = spins(0.5)
 import numpy as np
 
+def dominant(M, v0=None, tol=0):
+    """dominant: leading eigenvalue and eigenvector of a linear operator"""
+    if M.shape[0] > 2:
+        return arnoldi(M, k=1, v0=v0, tol=tol)
+    # too small for arnoldi
+    w, v = np.linalg.eig(M @ eye(M.shape[0]))
+    i = np.argmax(abs(w))
+    return w[i:i+1], v[:, i:i+1]
+
 class Map(object):
     """Map: transfer matrix with A and B"""
 
@@ -77,7 +86,7 @@ class Map(object):
         d, D = self.d, self.D
         if r0 is not None:
             r0 = r0.reshape(D**2)
-        η, r = arnoldi(self.aslinearoperator(), k=1, v0=r0, tol=tol)
+        η, r = dominant(self.aslinearoperator(), v0=r0, tol=tol)
         if rotate:
             w, r = rotate_to_hermitian(r, ret_phase=True)
         r = r.reshape(D, D)/sign(r[0])
@@ -87,7 +96,7 @@ class Map(object):
         d, D = self.d, self.D
         if l0 is not None:
             l0 = l0.reshape(D**2)
-        η, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0, tol=tol)
+        η, l = dominant(self.aslinearoperator().H, v0=l0, tol=tol)
         l = rotate_to_hermitian(l)/sign(l[0])
         l = l.reshape(D, D)
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
@@ -127,7 +136,7 @@ class TransferMatrix(object):
         """
         A = self.A
         l = l.reshape(A.shape[1:])
-        return sum(T(A) @ l @ C(A), axis=0).reshape(prod(A.shape[1:]))
+        return sum(cT(A) @ l @ A, axis=0).reshape(prod(A.shape[1:]))
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
@@ -144,8 +153,8 @@ class TransferMatrix(object):
             l0 = l0.reshape(self.shape[1])
         if r0 is not None:
             r0 = r0.reshape(self.shape[1])
-        _,   r = arnoldi(self.aslinearoperator(), k=1, v0=r0)
-        eta, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0)
+        _,   r = dominant(self.aslinearoperator(), v0=r0)
+        eta, l = dominant(self.aslinearoperator().H, v0=l0)
 
         r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
                 rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
@@ -362,12 +371,12 @@ class iMPS(object):
         X = cholesky_s(v_r, lower=True, check_finite=False, overwrite_a=True)
         Y = cholesky_s(v_l, lower=True, check_finite=False, overwrite_a=True)
 
-        U, L, V = svd_s(Y.T.dot(X), full_matrices=False,
+        U, L, V = svd_s(cT(Y).dot(X), full_matrices=False,
                                     overwrite_a=True,
                                     check_finite=False)
         ll = sum(L*L)
 
-        G_ = (V @ inv(X)) @ A @ (inv(Y.T) @ U)
+        G_ = (V @ inv(X)) @ A @ (inv(cT(Y)) @ U)
         L_ = diag(L)
 
         G_ /= sqrt(eta/ll) # these factors make it so G & L solve the eigenvalue problem
@@ -402,7 +411,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
@@ -487,11 +496,12 @@ class iMPS(object):
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
         A = self.data[0]
-        _, l, r = self.eigs()
+        eta, l, r = self.eigs()
+        A = A/sqrt(squeeze(eta))
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([A.conj(), A.conj()]+[l@C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
         return real(self.e)
 
@@ -543,17 +553,20 @@ class iMPS(object):
         l  | h |  |(I-E)^{-1}|  
         \--|   |--|          |--
         """
-        _, l, r = self.eigs()
+        eta, l, r = self.eigs()
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
-        A = self.data[0]
+        A = self.data[0]/sqrt(squeeze(eta))
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[l@C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
             K -= l*tr(K@r)
             return K
 
+        def LHS(K):
+            return K-sum(cT(A)@K@A, axis=0) + l*tr(K@r)
+
         def O(K, RHS):
             """O: function of which K should be the root
             scipy root doesn't work with complex numbers or ndim matrices (maybe)
@@ -565,18 +578,22 @@ class iMPS(object):
             """
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
-            def LHS(K):
-                return K-sum(cT(A)@K@A, axis=0) + l*tr(K@r)
-
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
             return O_n
 
-        K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
-        K0 = concatenate([real(K0), imag(K0)])
+        if method == 'krylov':
+            # the equation is linear: newton steps divide by zero once it is solved
+            O_lin = LinearOperator((D**2, D**2), dtype=complex,
+                                   matvec=lambda K: LHS(reshape(K, (D, D))).reshape(D**2))
+            K = gmres(O_lin, RHS().reshape(D**2).astype(complex), rtol=tol, atol=0)[0]
+            K = reshape(K, (D, D))
+        else:
+            K0 = (randn(D, D)+1j*randn(D, D)).reshape(D**2)
+            K0 = concatenate([real(K0), imag(K0)])
 
-        K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
-        K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
+            K = root(O, K0, args=(RHS(),), method=method, tol=tol).x
+            K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
         if testing: 
             def O_(K):
                 return O(K, RHS())
@@ -589,14 +606,14 @@ class iMPS(object):
           |(I-E)^{-1}|  | h |  r
         --|          |--|   |--/
         """
-        _, l, r = self.eigs()
+        eta, l, r = self.eigs()
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
-        A = self.data[0]
+        A = self.data[0]/sqrt(squeeze(eta))
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -2, 4], [2, 4, 3], [1, 2, -1, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
@@ -613,7 +630,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(c(A)@K@T(A), axis=0) + r*tr(l@K)
+                return K-sum(A@K@cT(A), axis=0) + r*tr(l@K)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
@@ -641,18 +658,20 @@ class iMPS(object):
         L = L_.reshape(-1, self.d*L_.shape[-1])
         vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
 
-        pr = ncon([inv(ch(l))@vL, inv(ch(l))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        M = inv(cT(ch(l)))@vL
+        pr = ncon([M, c(M)], [[-1, -2, 1], [-3, -4, 1]])
         self.vL = vL
         if get_vL:
             return pr, vL
         return pr
 
-    def right_null_projector(self, get_vL=False):
+    def right_null_projector(self, get_vR=False):
         _, _, r = self.eigs()
-        R_ = sw(c(self[0])@r, 0, 1)
+        R_ = sw(c(self[0]@ch(r)), 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
         vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r)), vR, c(vR), inv(ch(r))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        M = vR@inv(ch(r))
+        pr = ncon([M, c(M)], [[-1, 1, -2], [-3, 1, -4]])
         self.vR = vR
         if get_vR:
             return pr, vR
@@ -661,12 +680,13 @@ class iMPS(object):
     def dA_dt(self, H):
         d, D = self.d, self.D
         h = H[0].reshape(d, d, d, d)
-        A = self.data[0]
-        _, l, r = self.eigs()
+        eta, l, r = self.eigs()
+        scale = sqrt(squeeze(eta))
+        A = self.data[0]/scale
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([A.conj(), A.conj()]+[l@C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
@@ -675,10 +695,10 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
-        B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
-        B = iMPS([B])
+        B += -1j*ncon([l@C@r, pr, T(inv(r))@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([T(l)@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
+        B = iMPS([scale*B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
 
-- 
2.43.0


From b579b1303ab1151680708ab9e561c1cb7edee793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 25/80] fix: iTDVP rk4 multiplied its third stage by the time
 step twice

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From f692aaa03a5a4dba002ed99a029ddfa9d0c4ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 26/80] fix: Vidal form of finite states carries the Schmidt
 coefficients, not their squares

---
 xmps/fMPS.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 92e4f7e..38cb14a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -8,7 +8,7 @@ pyximport.install(setup_args={"include_dirs":np.get_include()},
 import unittest
 
 from numpy.random import rand, randint, randn
-from numpy.linalg import inv, norm, cholesky as ch, qr
+from numpy.linalg import inv, pinv, norm, cholesky as ch, qr
 from numpy.linalg import eig, eigvalsh
 
 from numpy import array, concatenate, diag, dot, allclose, isclose, swapaxes as sw
@@ -2192,30 +2192,34 @@ class fTFD(fMPS):
 
 class vfMPS(object):
     """vidal finite MPS
-    lists of tuples (Gamma, Lambda) of numpy arrays"""
+    lists of tuples (Lambda, Gamma) of numpy arrays"""
     def __init__(self,  data=None, d=None):
         """__init__
 
-        :param data: matrices in form [(Gamma, Lambda)]
+        :param data: matrices in form [(Lambda, Gamma)]
         :param d: local state space dimension
         """
         if data is not None and d is not None:
             self.L = len(data)
             self.d = d
-            self.D = max([datum[0][0].shape for datum in data])
+            self.D = max([L.shape[0] for L, _ in data])
+            self.data = data
 
     def from_fMPS(self, fMPS):
         """from_fMPS: convert a normal form fMPS to vidal form
 
         :param fMPS: fMPS to convert
         """
-        self.d = fMPS.d
-        fMPS.right_canonicalise()
+        self.L, self.d = fMPS.L, fMPS.d
+        fMPS.left_canonicalise()
         data = []
-        for L, A in zip(fMPS.Ls, fMPS.data):
-            G = swapaxes(dot(inv(L), A), 0, 1)
+        for env, A in zip(fMPS.Ls, fMPS.data):
+            # the environments are the squares of the weights
+            L = sqrt(abs(env))
+            G = swapaxes(dot(pinv(L), A), 0, 1)
             data.append((L, G))
         self.data = data
+        self.D = max([L.shape[0] for L, _ in data])
         return self
 
     def to_fMPS(self):
-- 
2.43.0


From 5b66e90c89ac87377f0ae5b2fa58b2fa076b22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 27/80] fix: overlap of infinite states whose mixed eigenvector
 has a zero first entry is not nan

---
 xmps/iMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 11be5d3..c9945d3 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -417,7 +417,7 @@ class iMPS(object):
 
     def overlap(self, other):
         A, B = self.copy().left_canonicalise()[0], other.copy().left_canonicalise()[0]
-        return np.abs(Map(A, B).left_fixed_point()[0])**2
+        return np.abs(dominant(Map(A, B).aslinearoperator().H)[0])**2
 
     def E(self, op, c=None):
         """E: calculate expectation of single site operator
-- 
2.43.0


From bc9ef65b3a397dce7b14388ef99486fbbab1d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 28/80] fix: infinite-chain integrators take the time steps
 they are given

---
 xmps/iTDVP.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index 53bff60..1810a43 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -18,7 +18,7 @@ from numpy import load, isclose, allclose, zeros_like as zl, prod, imag as im
 from numpy import log, abs, diag, cumsum as cs, arange as ar, eye, kron as kr
 from numpy import cross, dot, kron, split, concatenate as ct, isnan, isinf
 from numpy import trace as tr, zeros, printoptions, tensordot, trace, save
-from numpy import sign, block, sqrt, max, sort
+from numpy import sign, block, sqrt, max, sort, append, diff
 from numpy.random import randn
 from numpy.linalg import inv, svd, eig, eigvalsh
 from numpy.linalg import det, qr
@@ -82,8 +82,9 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         d, D = mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        # the state at the last time is recorded, the step after it goes nowhere
+        for dt in tqdm(append(diff(T), 0)):
+            mps = self.euler(mps, dt)
 
         self.mps = iMPS().deserialize(self.mps_history[-1], d, D, real=True)
         return self
@@ -94,8 +95,9 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         d, D = mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        # the state at the last time is recorded, the step after it goes nowhere
+        for dt in tqdm(append(diff(T), 0)):
+            mps = self.rk4(mps, dt)
 
         self.mps = iMPS().deserialize(self.mps_history[-1], d, D, real=True)
         return self
-- 
2.43.0


From c8cb2235ce3014e2a8ad15a784579c4c709fec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 29/80] fix: finite-chain integrators take the time steps they
 are given

---
 xmps/fTDVP.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 777016f..c463b74 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -25,7 +25,7 @@ from numpy import load, isclose, allclose, zeros_like as zl, prod, imag as im
 from numpy import log, abs, diag, cumsum as cs, arange as ar, eye, kron as kr
 from numpy import cross, dot, kron, split, concatenate as ct, isnan, isinf
 from numpy import trace as tr, zeros, printoptions, tensordot, trace, save
-from numpy import sign, block, sqrt, max, sort
+from numpy import sign, block, sqrt, max, sort, append, diff
 from numpy.random import randn
 from numpy.linalg import inv, svd, eig, eigvalsh
 from numpy.linalg import det, qr
@@ -137,8 +137,9 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.euler(mps, T[1]-T[0])
+        # the state at the last time is recorded, the step after it goes nowhere
+        for dt in tqdm(append(diff(T), 0)):
+            mps = self.euler(mps, dt)
 
         self.mps = self.recorded(-1)
         return self
@@ -149,8 +150,9 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
 
-        for t in tqdm(T):
-            mps = self.rk4(mps, T[1]-T[0])
+        # the state at the last time is recorded, the step after it goes nowhere
+        for dt in tqdm(append(diff(T), 0)):
+            mps = self.rk4(mps, dt)
 
         self.mps = self.recorded(-1)
         return self
@@ -241,8 +243,7 @@ class Trajectory(object):
                  for i, a in enumerate(H)], axis=0) if not self.fullH else H
         psi_n = psi_0
         self.ed_history = [psi_0]
-        dt = T[1]-T[0]
-        for t in tqdm(T[:-1]):
+        for dt in tqdm(diff(T)):
             psi_n = expm_multiply(-1j * H*dt, psi_n)
             self.ed_history.append(psi_n)
 
-- 
2.43.0


From a3295ca549985bf8b19780ad79c10240ffdeadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 30/80] fix: fPEPS width and height of lattices that are not
 square

---
 xmps/fPEPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..7ce3834 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Lx = len(data[0])
+            self.Ly = len(data)
             if d is not None:
                 self.d = d
             else:
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From ebd63245328dcc8d1c4c2033c7bde7115038b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 31/80] fix: fPEPS.E_k takes operators in reading order, as it
 says

---
 xmps/fPEPS.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 7ce3834..01341f4 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -299,7 +299,7 @@ class fPEPS(object):
         return eq
 
     def rho(self, sites, single_string=True):
-        '''reduced density matrix on sites
+        '''reduced density matrix on sites, as an array [down, across] (reading order)
         :param sites: sites to reduce to. specify as ((x, y), (width, height))
         :param single_string: whether to return a list of density matrices if D=1
         '''
@@ -307,14 +307,15 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, dd.conj())
+            rhos[j, i] = np.outer(dd, dd.conj())
         return rhos
 
     def rho_proj(self, other, sites, single_string=True):
-        '''reduced density matrix on sites: partial trace of |self><other| on sites.
+        '''reduced density matrix on sites: partial trace of |self><other| on sites,
+           as an array [down, across] (reading order)
         :param other: other state |other>
         :param sites: sites to reduce to
         :param single_string: whether to return a list of density matrices if D=1
@@ -323,11 +324,11 @@ class fPEPS(object):
             raise NotImplementedError('only implemented for D=1')
         assert self.bond_dimension==1
         (x, y), (width, height) = sites
-        rhos = np.zeros((width, height, self.d, self.d))*1j
+        rhos = np.zeros((height, width, self.d, self.d))*1j
         for i, j in product(range(width), range(height)):
             dd = np.squeeze(self.data[y+j][x+i])
             ddother = np.squeeze(other.data[y+j][x+i])
-            rhos[i, j] = np.outer(dd, ddother.conj())
+            rhos[j, i] = np.outer(dd, ddother.conj())
         return rhos
 
     def from_state(self, state):
@@ -344,9 +345,10 @@ class fPEPS(object):
 
     def contract(self, sites, single_string=False):
         '''sites as a pair, coords_of_top_left, width_height,
-            contracts rows of peps that sites covers'''
+            contracts rows and columns of peps that sites covers'''
         (x, y), (width, height) = sites
-        E = self.row_contract(y, y+height).col_contract(x, x+width)
+        # columns first: the sites of the block come out in reading order
+        E = self.col_contract(x, x+width).row_contract(y, y+height)
         return E
 
     def E_k(self, op, sites):
-- 
2.43.0


From 479622a9b346066b0ed1835e99dfe615d288205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 32/80] fix: matrix product operators of one site

---
 xmps/fPEPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 01341f4..4375bb9 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -231,6 +231,7 @@ class fMPO(object):
     def trivial(self, L):
         self.data = [np.ones(shape)
                      for shape in self.create_structure(L, 1, 1)]
+        self.L = L
         self.d = 1
         self.X = 1
         return self
@@ -243,7 +244,7 @@ class fMPO(object):
         return self
 
     def recombine(self):
-        ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
+        ncon_indices = [[-1, 1, -2, 1]] if self.L == 1 else [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
                                                        for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
         M = ncon(self.data, ncon_indices)
         M = M.reshape(np.prod(M.shape[:self.L]), np.prod(M.shape[self.L:]))
-- 
2.43.0


From bd0039199bafa1a33b4ab7b178a316c989d19e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 33/80] fix: fPEPS.from_mps lays a chain down one column

---
 xmps/fPEPS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 4375bb9..486cac0 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -595,7 +595,11 @@ class fPEPS(object):
         for i in range(Lx):
             for j in range(Ly):
                 d, X1, X2 = reshaped[j][i].shape
-                if j % 2 == 0:
+                if Lx == 1:
+                    # one column: straight down
+                    reshaped[j][i] = reshaped[j][i].reshape(
+                        d, X1, 1, X2, 1)
+                elif j % 2 == 0:
                     # going right
                     if i == Lx-1:
                         reshaped[j][i] = T(reshaped[j][i]).reshape(
-- 
2.43.0


From 39cf9feee34ab47c0b1b1cd8a28c0f6e1a68f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 34/80] fix: fPEPS.recombine in snake order keeps bonds between
 rows matched

---
 xmps/fPEPS.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 486cac0..717e4ae 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -656,15 +656,11 @@ class fPEPS(object):
             res = reduce(col_contract, cols)
             return np.squeeze(res)
         elif qubit_ordering == 'row_snake':
-            cols = []
-            for i, row in enumerate(self.data):
-                if i % 2 == 0:
-                    cols.append(reduce(row_contract, row))
-                else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
-            res = reduce(col_contract, cols)
-            return np.squeeze(res)
+            # the bonds stay in reading order: reorder the sites at the end
+            dims = [x.shape[0] for row in self.data for x in row]
+            order = [j*self.Lx + (i if j % 2 == 0 else self.Lx-1-i)
+                     for j, i in product(range(self.Ly), range(self.Lx))]
+            return self.recombine().reshape(dims).transpose(order).reshape(-1)
 
     def environment(self, site):
         # this is a mess.
-- 
2.43.0


From 5452a10083ecd018cb6d322b943cbeb1391ca438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 35/80] fix: fPEPS of different sizes are not equal

---
 xmps/fPEPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 717e4ae..712a4e3 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -292,6 +292,8 @@ class fPEPS(object):
         elif hasattr(other, 'd'):
             return False
 
+        if (self.Lx, self.Ly) != (other.Lx, other.Ly):
+            return False
         for row, row_ in zip(self.data, other.data):
             for A, A_ in zip(row, row_):
                 if not np.allclose(A.shape, A_.shape):
-- 
2.43.0


From 60b5d8ccbd582c568f2991e5cd75ac87acb92fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 36/80] fix: matrix product operators of one site have one
 tensor

---
 xmps/fPEPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 712a4e3..84c81c0 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -214,6 +214,8 @@ class fMPO(object):
             2
 
         """
+        if L == 1:
+            return [(d, 1, d, 1)]
         return [(d, X, d, 1)]+[(d, X, d, X) for _ in range(L-2)] + [(d, 1, d, X)]
 
     def structure(self):
-- 
2.43.0


From 57e7bf7b31043b01ce6be33897608b1cce19956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 37/80] fix: swap_antisymmetrise returns the antisymmetric part

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..b0878fb 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(U-swap_symmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
-- 
2.43.0


From b499b965d4b90a509270cf0d8a43ed9b2ef5ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 38/80] fix: paulis of spins other than one half

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index b0878fb..43c087b 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -250,7 +250,7 @@ def ladders(S):
     return [ladder(S, pm) for pm in [-1, 1]]
 
 def paulis(S):
-    Sx, Sy, Sz = spins(0.5)
+    Sx, Sy, Sz = spins(S)
     return 2*Sx, 2*Sy, 2*Sz
 
 def N_body_spins(S, i, N):
-- 
2.43.0


From 7e07f4476db76c03132985103b0994d488c8528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 39/80] fix: ladders of spins above three halves

---
 xmps/spin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/spin.py b/xmps/spin.py
index 43c087b..95cd9ea 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -247,6 +247,8 @@ def ladders(S):
                               [sqrt(3) , 0 , 0       , 0],
                               [0       , 2 , 0       , 0],
                               [0       , 0 , sqrt(3) , 0]])
+        Sx, Sy, _ = spins(S)
+        return real(Sx+pm*1j*Sy)
     return [ladder(S, pm) for pm in [-1, 1]]
 
 def paulis(S):
-- 
2.43.0


From f43bd2ea9e314ddf9dce758370db9b4c33b046a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 40/80] fix: n_body counts the sites of an operator without
 rounding down

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 95cd9ea..6340a73 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -140,7 +140,7 @@ def n_body(op, i, n, d=None):
         d = op.shape[0]
         l = [identity(d)*(1-m) + op*m for m in map(lambda j: int(not i-j), range(n))]
     else:
-        l = [identity(d) for _ in range(n+1-int(logd(op.shape[0], d)))]
+        l = [identity(d) for _ in range(n+1-int(round(logd(op.shape[0], d))))]
         l.insert(i+1, op)
         #l = [op if j==i else identity(d) for j in range(n-int(logd(op.shape[0], d)))]
     if not i < n:
-- 
2.43.0


From 4d63432566140f7fb7eea92fdcda5ee362588e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 41/80] fix: U1 and U2 call locals

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 6340a73..f889227 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -511,12 +511,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0


From ddb3b6f94fac1b81f1fc970c21989b2543ad0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 42/80] fix: ferro closes the spin algebra

---
 xmps/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index f889227..6227caa 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -498,7 +498,7 @@ def ferro():
     zp2, zm2 = (0.5*eye(4)+Sz2), (0.5*eye(4)-Sz2)
     m_x = (sp1@sp2 + sm1@sm2)
     m_y = 1j*(sp1@sp2-sm1@sm2)
-    m_z = (Sz1+Sz2)/2
+    m_z = Sz1+Sz2
     return array([m_x, m_y, m_z])
 
 def locals():
-- 
2.43.0


From 4dc0ad83b904af5bb1329ba5c3046cf57bafb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 43/80] fix: equal_up_to_phase of matrices with a zero first
 entry

---
 xmps/spin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 6227caa..a434581 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -603,7 +603,8 @@ def components(Q):
     return np.array(v)
 
 def equal_up_to_phase(U, V, p=False):
-    U_, V_ = U*np.exp(-1j*np.angle(U[0, 0])), V*np.exp(-1j*np.angle(V[0, 0]))
+    # the relative phase from the whole overlap: any one entry may vanish
+    U_, V_ = U, V*np.exp(1j*np.angle(np.vdot(V, U)))
     if p: print(U_, V_)
     return np.allclose(U_, V_,)
 
-- 
2.43.0


From e404a48941020ff177671c6fda21ac380d333767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 44/80] fix: AKLT weight of the middle state

---
 xmps/mps_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..c39f41b 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -136,7 +136,7 @@ def AKLT():
     sp, sm = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From aac629014e44b662cb05aef1dbbf2baaa356f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 45/80] fix: comp_x docstring names the states it returns

---
 xmps/mps_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index c39f41b..ef37231 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -70,8 +70,8 @@ def comp_x(i):
     """comp_x
     
     i=1: (+, +)
-    i=2: (-, +)
-    i=3: (+, -)
+    i=2: (+, -)
+    i=3: (-, +)
     i=4: (-, -)
     """
     matrices = [zeros((2, 1, 1))+1j*zeros((2, 1, 1)), 
-- 
2.43.0


From 86e14624b31e67aac236c5ca2d84c5ac893eeb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 46/80] fix: n_body rejects places outside the chain

---
 xmps/spin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index a434581..baf3247 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -138,13 +138,15 @@ def n_body(op, i, n, d=None):
     i = i-1
     if d is None:
         d = op.shape[0]
+        if not 0 <= i < n:
+            raise Exception("i must be a site of the chain")
         l = [identity(d)*(1-m) + op*m for m in map(lambda j: int(not i-j), range(n))]
     else:
         l = [identity(d) for _ in range(n+1-int(round(logd(op.shape[0], d))))]
+        if not 0 <= i+1 <= len(l):
+            raise Exception("i must be a site of the chain")
         l.insert(i+1, op)
         #l = [op if j==i else identity(d) for j in range(n-int(logd(op.shape[0], d)))]
-    if not i < n:
-        raise Exception("i must be less than n")
     return tensor(l)
 
 def spins(S):
-- 
2.43.0


From 61f8b9b0c93e836c61a539d741ff2c91b02f9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 47/80] fix: expectation values on a thermofield double used
 the transposed operator

---
 xmps/fMPS.py          | 4 ++--
 xmps/projects/fTFD.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 38cb14a..2505fcf 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2182,12 +2182,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index d45c0c2..364a496 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -136,12 +136,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op)))
         M = self.mixed_canonicalise(site)[site]
-        return trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
 
     def Es(self, ops, site):
         ops = [kron(op, eye(len(op))) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return [trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return [trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops]
 
 class testfTFD(unittest.TestCase):
-- 
2.43.0


From 4897eec05d88ac9a86e0f7005f1498392e4276f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 48/80] fix: copies of a thermofield double (and results of
 operators on it) were plain states

---
 xmps/fMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 2505fcf..fefd2c0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -258,7 +258,7 @@ class fMPS(object):
     def mul(self, other):
         """ proper mps multiplication (by scalar) here"""
         site = 0
-        return fMPS([x if i!=site else other*x for i, x in enumerate(self.data)])
+        return type(self)([x if i!=site else other*x for i, x in enumerate(self.data)])
 
     def __rmul__(self, other):
         """__rmul__: right scalar multiplication
@@ -880,7 +880,7 @@ class fMPS(object):
         op, site = opsite
         new_data = [x for x in self.data]
         new_data[site] = td(op, new_data[site], [1, 0])
-        return fMPS(new_data)
+        return type(self)(new_data)
 
     def post_select(self, site, which=0):
         '''post select on which (0 or 1) on site i'''
@@ -943,7 +943,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return type(self)(self.data.copy())
 
     def E(self, op, site):
         """E: one site expectation value
@@ -1069,7 +1069,7 @@ class fMPS(object):
         for shape in structure:
             new_data.append(vec[:prod(shape)].reshape(shape))
             _, vec = chop(vec, [prod(shape)])
-        return fMPS(new_data)
+        return type(self)(new_data)
 
     def store(self, filename, structured=False):
         """store in file
-- 
2.43.0


From 0e59e15c769ddcfb77897fff45f73262f6ee62fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 49/80] fix: local_overlap of a thermofield double raised a
 TypeError

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index fefd2c0..1cb2ccf 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2116,14 +2116,14 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
         if double:
             return self.E_k([np.kron(ρ, ρ) for ρ in other.rho(sites)], sites, single_string=True)
         else:
-            return self.E_k([np.kron(np.eye(2), ρ) for ρ in other.rho(sites)], sites, single_string=True)
+            return self.E_k([np.kron(np.eye(len(ρ)), ρ) for ρ in other.rho(sites)], sites, single_string=True)
 
 
     def symmetry(self):
-- 
2.43.0


From 387024ccfbce360ef689ab8e5cffcf4310aacbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 50/80] fix: evolution of a thermofield double coupled its two
 copies

---
 xmps/fMPS.py          | 17 +++++++++++++++--
 xmps/projects/fTFD.py | 19 ++++++++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 1cb2ccf..5c43840 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2169,9 +2169,22 @@ class fTFD(fMPS):
             return pr, vL
         return pr
 
+    def double(self, h):
+        """double: h acting on each of the two copies: h sees whole sites of one copy,
+        in the double each site carries its pair of copies
+
+        :param h: operator on some consecutive sites of one copy
+        """
+        d = int(round(sqrt(self.d)))
+        n = int(round(log(len(h))/log(d)))
+        h_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+        # (copy 1 sites, copy 2 sites) -> (site 1 copies, site 2 copies, ...)
+        order = [x for i in range(n) for x in (i, n+i)]
+        return tra(h_.reshape([d]*4*n), order+[2*n+x for x in order]).reshape(h_.shape)
+
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
+        H_ = self.double(H) if fullH else [self.double(h) for h in H]
+        dA_dt = super().dA_dt(H_, fullH=fullH)
         return dA_dt
 
     def E(self, op, site, lr=0):
diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index 364a496..627fd54 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -3,7 +3,7 @@ from xmps.fMPS import fMPS
 from xmps.fTDVP import Trajectory
 from xmps.ncon import ncon
 from numpy.random import randint, randn
-from numpy import kron, swapaxes as sw, eye, transpose as tra, sqrt
+from numpy import kron, swapaxes as sw, eye, transpose as tra, sqrt, log
 from numpy import allclose, linspace, load, real as re, sum
 from numpy import tensordot, trace, dot
 from scipy.linalg import norm, null_space as null, inv, cholesky as ch
@@ -123,9 +123,22 @@ class fTFD(fMPS):
             return pr, vL
         return pr
 
+    def double(self, h):
+        """double: h acting on each of the two copies: h sees whole sites of one copy,
+        in the double each site carries its pair of copies
+
+        :param h: operator on some consecutive sites of one copy
+        """
+        d = int(round(sqrt(self.d)))
+        n = int(round(log(len(h))/log(d)))
+        h_ = kron(eye(len(h)), h)+kron(h, eye(len(h)))
+        # (copy 1 sites, copy 2 sites) -> (site 1 copies, site 2 copies, ...)
+        order = [x for i in range(n) for x in (i, n+i)]
+        return tra(h_.reshape([d]*4*n), order+[2*n+x for x in order]).reshape(h_.shape)
+
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
+        H_ = self.double(H) if fullH else [self.double(h) for h in H]
+        dA_dt = super().dA_dt(H_, fullH=fullH)
         return dA_dt
 
     def E(self, op, site):
-- 
2.43.0


From bb340ca5ab342659ebd898bac83e0d31291d91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 51/80] fix: null projector of projects.fTFD ignored the phases
 of its environment

---
 xmps/projects/fTFD.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index 627fd54..02836aa 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -118,7 +118,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        x = inv(cT(ch(l(n-1))))@vL
+        pr = ncon([x, c(x)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From 3da977c6a69273a5fd6c57afdbc600540b201505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 52/80] fix: fTFD.from_fMPS kept the canonical form of the
 state it replaced

---
 xmps/fMPS.py          | 2 ++
 xmps/projects/fTFD.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5c43840..cd73dcc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2106,6 +2106,8 @@ class fTFD(fMPS):
         self.d = mps.d**2
         self.D = mps.D**2
         self.L = mps.L
+        self.canonical = False
+        self.orthogonal = False
         return self
 
     def approx_overlap(self, other, As, double=False):
diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index 02836aa..b709e53 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -82,6 +82,8 @@ class fTFD(fMPS):
         self.d = mps.d**2
         self.D = mps.D**2
         self.L = mps.L
+        self.canonical = False
+        self.orthogonal = False
         return self
 
     def symmetry(self):
-- 
2.43.0


From 87ea6880e92c1e5e457dcf6858c6d5bbbf51a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 53/80] fix: right_null_projector was only right for states
 with identity right environments

---
 xmps/fMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index cd73dcc..9f39fbe 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1927,10 +1927,11 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@r(n), 0, 1)
+            R_ = sw(c(self[n]@ch(r(n))), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        x = vR@inv(ch(r(n)))
+        pr = ncon([x, c(x)], [[-1, 1, -2], [-3, 1, -4]])
         if get_vR:
             return pr, vR
         return pr
-- 
2.43.0


From f656f09d32551915a1c122ba1e60706777fad125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 54/80] fix: projection_error was wrong (or raised) unless the
 state was a product

---
 xmps/fMPS.py | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9f39fbe..c4492b1 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1103,40 +1103,39 @@ class fMPS(object):
             return self.deserialize(arr, L, d, D)
 
     def projection_error(self, H, dt):
-        """projection_error: error in projection to mps manifold
+        """projection_error: error in projection to mps manifold,
+           norm(dt*(1-P)H|psi>)**2, with P the projector on the tangent space
 
         :param H: hamiltonian
         :param dt: time step
         """
-        L, d, A, D = self.L, self.d, self.data, self.D
-        dA_dt = self.dA_dt(H, True)
-        l, r = self.l, self.r
-        def vR(n): return self.right_null_projector(n, r, True)[1]
+        self.dA_dt(H, True)
+        # store last projection error on mps
+        self.ε = sum([norm(dt*G)**2 for G, _, _ in self.two_site_directions(H) if G is not None])
+        return self.ε
 
-        H = [h.reshape(*[self.d]*4) for h in H]
-        def G(m):
-            C = ncon([H[m]]+[l(m-1)@A[m], A[m+1]@r(m+1)], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            return ncon([c(vL(m)), c(vR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
+    def two_site_directions(self, H):
+        """two_site_directions: for each bond, the part of H|psi> outside the
+           tangent space: |..A G[a, b] xL[a] xR[b] A..>, xL, xR orthonormal.
+           None if the bond is full. Uses the stored environments
 
-        ε = 0
-        for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
-            _, Dm_2 = self.structure()[m+1]
+        :param H: hamiltonian
+        """
+        d, A = self.d, self.data
+        l, r = self.l, self.r
+        dirs = []
+        for m, h in enumerate(H):
+            Dm, Dm_1, Dm_2 = A[m].shape[1], A[m].shape[2], A[m+1].shape[2]
             if d*Dm==Dm_1 or Dm_1==d*Dm_2:
+                dirs.append((None, None, None))
                 continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            U, s, V = tr_svd(G(m), d*D-D)
-
-            x, y = U@sqrt(s), sqrt(s)@V
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
-
-            ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
-
-            ## left environments change as we move along the chain
-            # this is a hack because I used lambdas for the envs in vL etc.
-            ln = sum(cT(A[m])@l(m-1)@A[m], 0)
-            def l(n): return ln
-        self.ε = ε # store last projection error on mps
-        return ε
+            xL = inv(cT(ch(l(m-1))))@self.left_null_projector(m, l, True)[1]
+            xR = self.right_null_projector(m+1, r, True)[1]@inv(ch(r(m+1)))
+            C = ncon([h.reshape(d, d, d, d), l(m-1)@A[m], A[m+1]@r(m+1)],
+                     [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
+            G = ncon([c(xL), c(xR), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
+            dirs.append((G, xL, xR))
+        return dirs
 
     def expand(self, D_):
         """expand - just pad with zeros"""
-- 
2.43.0


From e4b597d9d64d977f8f971dee68283bfcf9178f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 55/80] fix: dynamical_expand grew along a partial transpose of
 H and moved inner sites twice

---
 xmps/fMPS.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c4492b1..6403762 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1159,32 +1159,26 @@ class fMPS(object):
         :param D_: new bond dimension
         :param threshold: by default will expand if no need to, else add threshold
         """
-        L, d, A, D = self.L, self.d, self.data, self.D
-        def vR(n): return self.right_null_projector(n, r, True)[1]
-
-        H = [h.reshape(*[self.d]*4) for h in H]
-        def G(m):
-            return ncon([l(m-1)@A[m], A[m+1]@r(m+1), H[m], c(vL(m)), c(vR(m+1))],
-                        [[2, 1, 4], [6, 4, 8], [3, 6, 2, 7], [3, 1, -1], [7, -2, 8]])
-
         if threshold is not None:
             if self.projection_error(H, dt) < threshold:
                 return self
 
-        for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
-            _, Dm_2 = self.structure()[m+1]
-            if d*Dm==Dm_1 or Dm_1==d*Dm_2:
-                continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            dA_dt = self.dA_dt(H)
-            l, r = self.l, self.r
+        A, D = self.data, self.D
+        dA_dt = self.dA_dt(H)
+        dirs = self.two_site_directions(H)
 
-            U, s, V = tr_svd(G(m), D_-D)
-            x, y = U@sqrt(s), sqrt(s)@V
-            self.xy = x, y
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
+        for m, B in enumerate(dA_dt.data):
+            A[m] = A[m]+dt*B
 
-            A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
+        for m, (G, xL, xR) in enumerate(dirs):
+            if G is None:
+                continue
+            U, s, V = tr_svd(-1j*dt*G, D_-D)
+            x, y = U@sqrt(s), sqrt(s)@V
+            A01, A10 = xL@x, y@xR
+            # rows (columns) added to the sites for the previous (next) bond
+            A01 = ct([A01, zeros((self.d, A[m].shape[1]-A01.shape[1], A01.shape[2]))], 1)
+            A[m], A[m+1] = ct([A[m], A01], 2), ct([A[m+1], A10], 1)
 
         self.D = max([max(shape) for shape in self.structure()])
         self.canonical = False
-- 
2.43.0


From e7bb61b6bbc86379eaee8b94f18af464c17b8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 56/80] fix: tangent vectors were wrong for states not in
 canonical form, tangent_state raised

---
 xmps/fMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 6403762..d97b014 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1931,8 +1931,8 @@ class fMPS(object):
 
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
-        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
-        return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
+        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else (1, vL)
+        return fMPS([inv(cT(ch(l(n-1))))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
         l, _ = self.get_envs() if l is None else (l, None)
@@ -1997,7 +1997,7 @@ class fMPS(object):
                 continue
             _, vL = self.left_null_projector(n, get_vL=True, store_envs=True)
             l, r = self.l, self.r
-            x = ncon([c(vL), ch(l(n-1))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
+            x = ncon([c(vL), cT(ch(l(n-1)))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
             xs.append(x.reshape(-1))
         return ct(xs)
 
@@ -2008,7 +2008,7 @@ class fMPS(object):
         sites = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
         Bs = [zl(A) for A in self.data]
         for n, x in zip(sites, chop(v, cs([prod(shapes[n]) for n in sites]))):
-            Bs[n] = inv(ch(l(n-1)))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
+            Bs[n] = inv(cT(ch(l(n-1))))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From f4eb59268d3a2812508ad0574962181a68bc04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 57/80] fix: Trajectory.dynamical_expand ignored the
 hamiltonian it was given

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c463b74..73d676e 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -191,7 +191,7 @@ class Trajectory(object):
         assert self.H is not None or H is not None
         H = self.H if H is None and self.H is not None else H
 
-        self.mps.dynamical_expand(self.H, dt, D, None)
+        self.mps.dynamical_expand(H, dt, D, None)
         self.Ds[-1:] = [self.mps.bond_dimension]
         return self
 
-- 
2.43.0


From ee174dfd9155382ad5ad6ed848a10f8b360d7d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 58/80] fix: Trajectory.contract dropped arbitrary weights of a
 left canonical state

---
 xmps/fTDVP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 73d676e..3d52f79 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -196,7 +196,8 @@ class Trajectory(object):
         return self
 
     def contract(self, D):
-        self.mps.left_canonicalise(D)
+        # truncate with the weights of the state, whatever form it is in
+        self.mps.right_canonicalise().left_canonicalise(D)
         self.Ds[-1:] = [self.mps.bond_dimension]
         return self
 
-- 
2.43.0


From 11f40ea9ff7262e30a96001125f400f26f2a05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 59/80] fix: states with different numbers or sizes of tensors
 are not equal; m(k) is the k-th tensor counted from one

---
 xmps/fMPS.py | 6 +++---
 xmps/iMPS.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d97b014..7bbaf01 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -174,7 +174,7 @@ class fMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
@@ -196,8 +196,8 @@ class fMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self.data) == len(other.data) and all(
+            [a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)])
 
     def __ne__(self, other):
         """__ne__
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index c9945d3..7ef7e07 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -186,7 +186,7 @@ class iMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
@@ -205,8 +205,8 @@ class iMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self.data) == len(other.data) and all(
+            [a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)])
 
     def __ne__(self, other):
         """__ne__
-- 
2.43.0


From b80e54ea56b27db1efff5bb00c8acd5afaf485d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 60/80] fix: direct_sum of rectangular blocks, lanczos_expm
 without expokit

---
 xmps/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index e7ff8cc..b2a85aa 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -31,7 +31,7 @@ try:
         return output_vec
 except:
     def lanczos_expm(A, v, t):
-        return expm_multiply(A, v, t)
+        return expm_multiply(A*t, v)
 
 def embed(v):
     '''put matrix in form
@@ -77,8 +77,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From c56bbb30c541d3980af9b1b477f320736df45f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 61/80] fix: environment reports include the site at the end of
 the chain

---
 xmps/tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/tests.py b/xmps/tests.py
index 15e518c..638ccfa 100644
--- a/xmps/tests.py
+++ b/xmps/tests.py
@@ -70,7 +70,7 @@ def is_right_env_canonical(mats, sings):
     """
     Ls = [tensordot(dot(H(A), L), A, [[0, -1], [0, 1]])
             for (A, L) in zip(mats, sings)]
-    close = array([allclose(l, x) for l, x in zip(Ls[:-1], sings[1:])])
+    close = array([allclose(l, x) for l, x in zip(Ls, sings[1:])])
     return close.all()
 
 def is_left_env_canonical(mats, sings):
@@ -79,7 +79,7 @@ def is_left_env_canonical(mats, sings):
     """
     Ls = [tensordot(dot(A, L), H(A), [[0, -1], [0, 1]])
             for (A, L) in zip(mats, sings[1:])]
-    close = array([allclose(l, x) for l, x in zip(Ls[:-1], sings[:-1])])
+    close = array([allclose(l, x) for l, x in zip(Ls, sings[:-1])])
     return close.all()
 
 def is_full_rank(sings):
-- 
2.43.0


From 27a6a8a8a423615f5e5d412159136a681316a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 62/80] fix: eigenmatrices with a vanishing first entry were
 divided by zero

---
 xmps/iMPS.py   | 10 +++++-----
 xmps/tensor.py | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 7ef7e07..561356f 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -25,7 +25,7 @@ from itertools import product
 
 from .tensor import H, C, r_eigenmatrix, l_eigenmatrix, get_null_space, p
 from .tensor import H as cT, C as c, T
-from .tensor import basis_iterator, T, rotate_to_hermitian
+from .tensor import basis_iterator, T, rotate_to_hermitian, phase_entry
 from .tensor import C as c, H as cT, uqr, urq, eye_like
 
 from .ncon import ncon
@@ -89,7 +89,7 @@ class Map(object):
         η, r = dominant(self.aslinearoperator(), v0=r0, tol=tol)
         if rotate:
             w, r = rotate_to_hermitian(r, ret_phase=True)
-        r = r.reshape(D, D)/sign(r[0])
+        r = r.reshape(D, D)/sign(phase_entry(r))
         return η, r
 
     def left_fixed_point(self, l0=None, tol=0):
@@ -97,7 +97,7 @@ class Map(object):
         if l0 is not None:
             l0 = l0.reshape(D**2)
         η, l = dominant(self.aslinearoperator().H, v0=l0, tol=tol)
-        l = rotate_to_hermitian(l)/sign(l[0])
+        l = rotate_to_hermitian(l)/sign(phase_entry(l))
         l = l.reshape(D, D)
         return η*np.sqrt(tr(l.conj().T@l)), l/np.sqrt(tr(l.conj().T@l))
 
@@ -156,8 +156,8 @@ class TransferMatrix(object):
         _,   r = dominant(self.aslinearoperator(), v0=r0)
         eta, l = dominant(self.aslinearoperator().H, v0=l0)
 
-        r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
-                rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
+        r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(phase_entry(r)),
+                rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(phase_entry(l)))
 
         n = tr(l @ r)
         q = 1#tr(l@l)
diff --git a/xmps/tensor.py b/xmps/tensor.py
index b2a85aa..5e84d8e 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -240,12 +240,23 @@ def diagonalise(M):
     S, V = eigh(M) # M is hermitian: eig would mix degenerate eigenvectors
     return (V[:, ::-1], diag(S[::-1]))
 
+def phase_entry(r):
+    """phase_entry: number with the phase of r = w r_H: the first entry of r, or,
+    where that vanishes, the largest on its diagonal, or else the root of tr(r@r)
+    """
+    r = r.reshape(int(round(sqrt(r.size))), -1)
+    diagonal = r.diagonal()
+    for x in (r[0, 0], diagonal[argmax(abs(diagonal))], sqrt((r*r.T).sum()+0j)):
+        if abs(x) > 1e-10*norm(r):
+            return x
+    return 1.
+
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
     to phase w i.e. r = w r_H where r_H = r_H^\dagger and abs(w)=1
     Also slightly underspecified, only return r_H up to a sign
     """
-    rr = r[0, 0]
+    rr = phase_entry(r)
     w = sqrt(conj(rr)/rr)
     if ret_phase:
         return w.conj(), r*w
@@ -269,7 +280,7 @@ def r_eigenmatrix(M):
     # e_max_, v_max_ = e[argmax(abs(e))], v[:, argmax(abs(e))].reshape(K, K)
 
     e, v = arnoldi(M, k=1, which='LM')
-    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
+    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(phase_entry(v))
 
     return e_max, v_max
 
@@ -291,7 +302,7 @@ def l_eigenmatrix(M):
     # e_max_, v_max_ = e[argmax(abs(e))], v[:, argmax(abs(e))].reshape(K, K)  # maxima
 
     e, v = arnoldi(M.conj().T, k=1, which='LM')
-    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
+    e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(phase_entry(v))
 
     return e_max, v_max.conj()
 
-- 
2.43.0


From cdb4c8c0bfbb09662d73196d59c8e0d5e5c781e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 63/80] fix: lyapunov averaged arrays of different lengths and
 divided a list

---
 xmps/fTDVP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 3d52f79..cb3a3bc 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -335,10 +335,10 @@ class Trajectory(object):
         dt = T[1]-T[0]
 
         lys = []
-        exps = [array([0])]
+        exps = [zeros(len(Q))]
 
         lys_ = []
-        exps_ = [array([0])]
+        exps_ = [zeros(len(Q))]
 
         self.vs = []
 
@@ -403,13 +403,13 @@ class Trajectory(object):
 
         if just_max:
             self.q = q
-            self.exps = exps[k+1:n+2]/dt
-            self.exps_ = exps_[k+1:n+2]/dt
+            self.exps = array(exps[k+1:n+2])/dt
+            self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
         else:
             self.Q = Q
-            self.exps = exps[k+1:n+2]/dt
-            self.exps_ = exps_[k+1:n+2]/dt
+            self.exps = array(exps[k+1:n+2])/dt
+            self.exps_ = array(exps_[k+1:n+2])/dt
             T = T[k:n+1]
 
         if hasattr(self, 'lys_'):
-- 
2.43.0


From 0a453465738e3155f5539c6d74cc6b20ba33ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 64/80] fix: lyapunov exponents depended on the zero of energy

---
 xmps/fTDVP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index cb3a3bc..4e24049 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -348,7 +348,9 @@ class Trajectory(object):
         paired = []
         paired_ = []
         for n in tqdm(range(len(T))):
+            # neighbouring states turn with the phase of this one, which is no separation
             J = self.mps.jac(H)
+            J = J + self.mps.energy(H)*kron(array([[0, -1], [1, 0]]), eye(len(J)//2))
             if hasattr(self.mps, 'old_vL'):
                 self.vs.append(self.mps.v)
             if just_max:
-- 
2.43.0


From 5006060e599410814604faaf227c506492737b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 65/80] fix: lyapunov compared an initial basis given as an
 array with a name

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 4e24049..e62eafe 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -320,13 +320,13 @@ class Trajectory(object):
 
         if hasattr(self, 'Q'):
             Q = self.Q
+        elif not isinstance(initial_basis, str):
+            Q = initial_basis
         elif initial_basis == 'F2':
             Q = self.mps.tangent_space_basis(H=H, type=initial_basis)
         elif initial_basis == 'eye' or initial_basis == 'rand':
             Q = kron(eye(2), self.mps.tangent_space_basis(
                 H=H, type=initial_basis))
-        else:
-            Q = initial_basis
         Q_ = copy(Q)
 
         if just_max:
-- 
2.43.0


From 5cf0e7d122c5007ad4a06799e2adb00441158023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 66/80] fix: jac assumed diagonal environments: other gauges
 gave a different linearised motion

---
 xmps/fMPS.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 7bbaf01..be57f12 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -9,7 +9,7 @@ import unittest
 
 from numpy.random import rand, randint, randn
 from numpy.linalg import inv, pinv, norm, cholesky as ch, qr
-from numpy.linalg import eig, eigvalsh
+from numpy.linalg import eig, eigh, eigvalsh
 
 from numpy import array, concatenate, diag, dot, allclose, isclose, swapaxes as sw
 from numpy import identity, swapaxes, trace, tensordot, sum, prod, ones
@@ -1296,13 +1296,17 @@ class fMPS(object):
     def jac(self, H,
             as_matrix=True,
             real_matrix=True,
-            fix_vLs=True):
+            fix_vLs=True,
+            vLs=None):
         """jac: calculate the jacobian of the current mps
+
+        :param vLs: null space of each tensor to use
         """
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs()
+        given_vLs = vLs is not None
 
-        prs_vLs = [self.left_null_projector(n, l, get_vL=True) for n in range(self.L)]
+        prs_vLs = [self.left_null_projector(n, l, get_vL=True, vL=vLs[n] if given_vLs else None) for n in range(self.L)]
         prs = [x[0] for x in prs_vLs]
         vLs = [x[1] for x in prs_vLs]
 
@@ -1323,6 +1327,17 @@ class fMPS(object):
             prs = [self.left_null_projector(n, l, vL=vLs[n]) for n in range(self.L)]
 
         prs_vLs = list(zip(prs, vLs))
+        if as_matrix and not given_vLs and not all([allclose(e(n), diag(diag(e(n))), rtol=0, atol=1e-12*norm(e(n)))
+                                                    for e in (l, r) for n in range(L)]):
+            # the blocks are for diagonal environments: rotate to where they are, and back
+            U = [eigh(l(n)+r(n))[1] for n in range(-1, L)]
+            mps = fMPS([cT(U[n])@A[n]@U[n+1] for n in range(L)])
+            l_, r_ = mps.get_envs()
+            Js = mps.jac(H, True, False, False, [inv(ch(l_(n-1)))@cT(U[n])@ch(l(n-1))@vLs[n] for n in range(L)])
+            R = bd(*[kron(eye(a), (inv(ch(r(n)))@U[n+1]@ch(r_(n))).T)
+                     for n, (a, b) in enumerate(self.tangent_space_dims(l, vLs=vLs)) if a!=0 and b!=0])
+            J1_, J2_, Γ2_ = cT(R)@Js[0]@R, cT(R)@Js[1]@c(R), cT(R)@Js[2]@c(R)
+            return (J1_, J2_, Γ2_) if not real_matrix else self.real_jac(J1_, J2_+Γ2_)
         def vL(i): return vLs[i]
         dA_dt = self.dA_dt(H, prs_vLs=prs_vLs)
         def inv_diag(mat):
@@ -1385,10 +1400,11 @@ class fMPS(object):
 
             return (lambda i, j: gauge(F1(i, j), i, j)), (lambda i, j: gauge_(F2(i, j)+Γ2(i, j), i, j))
 
-        J2_ = J2_ + Γ2_
+        return self.real_jac(J1_, J2_+Γ2_)
 
-        J = kron(Sz, re(J2_)) + kron(eye(2), re(J1_)) + kron(Sx, im(J2_)) + kron(-1j*Sy, im(J1_))
-        return J
+    def real_jac(self, J1, J2):
+        """real_jac: action of x -> J1 x + J2 c(x) on (re(x), im(x))"""
+        return kron(Sz, re(J2)) + kron(eye(2), re(J1)) + kron(Sx, im(J2)) + kron(-1j*Sy, im(J1))
 
     def tangent_states(self, sites, inv_ch_l, inv_ch_r, vL):
         '''dense derivatives of the state at sites (ascending): the first index
-- 
2.43.0


From a5e52b4310f7d02f79274c44ef242bc860c34b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 67/80] fix: qmb did not import, and its mpo used names that
 are not there

---
 xmps/qmb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/qmb.py b/xmps/qmb.py
index 329aa4b..98813af 100644
--- a/xmps/qmb.py
+++ b/xmps/qmb.py
@@ -5,8 +5,9 @@ from numpy import swapaxes, array, identity, allclose, sqrt, zeros, reshape
 from numpy import tensordot
 from itertools import product
 from numpy.random import randn, rand
-from spin import *
-        
+
+sp, sm, sz = sigmap().full(), sigmam().full(), sigmaz().full()
+I, O = identity(2), zeros((2, 2))
 
 def S_n_body(op, i, n, tensorise=True):
     """S_n_body: n_body versions of local operators replace
-- 
2.43.0


From 93f2d0797302deb852a7208960baf3cdf5af5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 68/80] fix: adding states of one site

---
 xmps/fMPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index be57f12..04142c0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -223,7 +223,9 @@ class fMPS(object):
         """
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
-            if i == 0:
+            if self.L == 1:
+                new_data[i] = self[i]+other[i]
+            elif i == 0:
                 new_data[i] = np.concatenate([self[i], other[i]], 2)
             elif i == self.L-1:
                 new_data[i] = np.concatenate([self[i], other[i]], 1)
@@ -2089,7 +2091,9 @@ class fTFD(fMPS):
         """
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
-            if i == 0:
+            if self.L == 1:
+                new_data[i] = self[i]+other[i]
+            elif i == 0:
                 new_data[i] = np.concatenate([self[i], other[i]], 2)
             elif i == self.L-1:
                 new_data[i] = np.concatenate([self[i], other[i]], 1)
-- 
2.43.0


From 6031b70ab0ff5ff421a04416d3ad785b589ca6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 69/80] fix: one site operator given two sites used undefined
 names

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 04142c0..0d2208e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -911,7 +911,7 @@ class fMPS(object):
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
-- 
2.43.0


From 350e2eaceabe51ca12011cec9702a5e812bbcb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 70/80] fix: save stored the state of a just_max run away from
 loc

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index e62eafe..9ccc411 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -575,7 +575,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
-- 
2.43.0


From 27ea83e1ea03f0b6c96fea6cdd2141a8165880a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 71/80] fix: stop raised unless lyapunov had been run

---
 xmps/fTDVP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 9ccc411..8e6965d 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -67,6 +67,7 @@ class Trajectory(object):
         self.structures = []  # shapes of the tensors of each recorded state
         self.run_name = run_name
         self.continuous = continuous
+        self.has_run_lyapunov = False
 
     def record(self, mps):
         """record: add mps to the history. Ds has the bond dimension of each
-- 
2.43.0


From 9d8b282f71c198d7aa2dbd66edb6321d1dc5987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 72/80] fix: k-site terms of any local dimension (rounding of
 k, full matrix)

---
 xmps/Hamiltonians.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index f5dfe26..1a6ffcb 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -40,9 +40,10 @@ class Hamiltonian(object):
     def k(self):
         if self.has_matrices:
             dk = self.matrices[0].shape[0]
-            k = math.log(dk, self.d)
-            assert np.allclose(k, int(k))
-            return int(k)
+            # the logarithm may fall just short of an integer
+            k = int(round(math.log(dk, self.d)))
+            assert self.d**k == dk
+            return k
     @property
     def L(self):
         if not self.has_matrices:
@@ -137,8 +138,9 @@ class Hamiltonian(object):
             else:
                 raise Exception('No strings or matrices')
         if self.has_matrices:
-            total = np.zeros((2**self.L, 2**self.L))*1j
+            total = np.zeros((self.d**self.L, self.d**self.L))*1j
+            id = np.eye(self.d)
             for i, matrix in enumerate(self.matrices):
-                total += reduce(np.kron, [I]*i+[matrix]+[I]*(self.L-self.k-i))
+                total += reduce(np.kron, [id]*i+[matrix]+[id]*(self.L-self.k-i))
             return total
 
-- 
2.43.0


From 71db81cee3490e78d2a82d0aa578ad81da1609be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 73/80] fix: right_transfer without ret_all returns the
 operator at the destination

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 0d2208e..6e824cf 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -861,7 +861,7 @@ class fMPS(object):
         oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
         for m in range(i+1, j+1):
             Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)], [1, 2, -len(op.shape)+1], oplinks]))
-        return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
+        return (lambda n: Rs[n-i-1]) if ret_all else Rs[j-i-1]
 
     def links(self, k=None, op=True):
         """links: op True: return the links for ncon for full contraction of this
-- 
2.43.0


From 88139efc57285c769ef490d436112806b0201e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 74/80] fix: col_mpos uses the other lattice it is given

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 84c81c0..018d14d 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -371,7 +371,7 @@ class fPEPS(object):
             for row, other_row in zip(self.data, other.data)]
 
     def col_mpos(self, other=None):
-        return self.T.row_mpos(None)
+        return self.T.row_mpos(None if other is None else other.T)
 
     @property
     def T(self):
-- 
2.43.0


From bd5c39432405c293b8d52022b8d26b69bb3b352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 75/80] fix: a random state claims no form of the state before
 it (lattices, uniform chains)

---
 xmps/fPEPS.py | 2 ++
 xmps/iMPS.py  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 018d14d..d676d1c 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -637,6 +637,8 @@ class fPEPS(object):
         self.Ly = Ly
         self.d = d
         self.X = X
+        if hasattr(self, 'oc'):
+            del self.oc # of an earlier state
         shapes = self.create_structure(Lx, Ly, d, X)
         self.data = [[np.random.randn(*shape)+1j*np.random.randn(*shape) for shape in row]
                      for row in shapes]
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 561356f..b99a87e 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -285,6 +285,7 @@ class iMPS(object):
         self.d = d
         self.D = D
         self.data = [5*(randn(d, D, D)+randn(d, D, D)*1j) for _ in range(period)]
+        self.canonical = None
         return self
 
     def transfer_matrix(self):
-- 
2.43.0


From 490af11dd2148ed7338d31d62cf56f650bb2a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 76/80] fix: fPEPS.copy(data) carries the data it is given

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index d676d1c..48a5e9f 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -922,7 +922,7 @@ class fPEPS(object):
     def copy(self, data=None):
         # copy self (or data) into new fPEPS with all of the stuff this fPEPS has (oc, X, d, etc.)
         data = self.data if data is None else data
-        ret = fPEPS([[x.copy() for x in row] for row in self.data])
+        ret = fPEPS([[x.copy() for x in row] for row in data])
         if hasattr(self, 'oc'):
             ret.oc = self.oc
         if hasattr(self, 'X'):
-- 
2.43.0


From 1432642f6a48330fbc7c657db32e6a698cd11e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:19 +0000
Subject: [PATCH 77/80] fix: jac and ddA_dt assumed environments that are
 diagonal together

---
 xmps/fMPS.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 6e824cf..bd09551 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1265,20 +1265,9 @@ class fMPS(object):
         :param H: hamiltonian
         :param fullH: is the hamiltonian full
         """
-        L, d, A = self.L, self.d, self.data
-        dA = self.import_tangent_vector(v)
-        dA_dt = self.dA_dt(H, store_energy=True, fullH=fullH)
-        l, r, e = self.l, self.r, self.e
-        # down are the tensors acting on c(Aj), up act on Aj
-        up, down = self.jac(H, False)
-
-        # the environments belong to the inner product of the tangent space
-        B = [l(j-1)@dA[j]@r(j) for j in range(L)]
-        ddA = [sum([td(down(i, j), c(B[j]), [[3, 4, 5], [0, 1, 2]]) +
-                    td(up(i, j),     B[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
-               for i in range(L)]
+        J1, J2, Γ2 = self.jac(H, real_matrix=False, fix_vLs=False)
 
-        return self.extract_tangent_vector(ddA)
+        return J1@v + (J2+Γ2)@c(v)
 
     def match_gauge_to(self, mps):
         """match gauge with another matrix product state
@@ -1332,8 +1321,8 @@ class fMPS(object):
         if as_matrix and not given_vLs and not all([allclose(e(n), diag(diag(e(n))), rtol=0, atol=1e-12*norm(e(n)))
                                                     for e in (l, r) for n in range(L)]):
             # the blocks are for diagonal environments: rotate to where they are, and back
-            U = [eigh(l(n)+r(n))[1] for n in range(-1, L)]
-            mps = fMPS([cT(U[n])@A[n]@U[n+1] for n in range(L)])
+            U = [inv(cT(ch(l(n))))@eigh(cT(ch(l(n)))@r(n)@ch(l(n)))[1] for n in range(-1, L)]
+            mps = fMPS([inv(U[n])@A[n]@U[n+1] for n in range(L)])
             l_, r_ = mps.get_envs()
             Js = mps.jac(H, True, False, False, [inv(ch(l_(n-1)))@cT(U[n])@ch(l(n-1))@vLs[n] for n in range(L)])
             R = bd(*[kron(eye(a), (inv(ch(r(n)))@U[n+1]@ch(r_(n))).T)
-- 
2.43.0


From eea7e0f3848d831058486a078410b6af00cb6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:17 +0000
Subject: [PATCH 78/80] fix: a numpy scalar from the left did not multiply a
 state

---
 xmps/fMPS.py | 1 +
 xmps/iMPS.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index bd09551..eb1a744 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -144,6 +144,7 @@ def separate_tensor_rq(tensor):
 class fMPS(object):
     """finite MPS:
     lists of numpy arrays (1d) of numpy arrays (2d). Finite"""
+    __array_ufunc__ = None  # a numpy scalar from the left is ours to multiply (__rmul__)
 
     def __init__(self, data=None, d=None, D=None):
         """__init__
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index b99a87e..ca1dc0f 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -166,6 +166,7 @@ class TransferMatrix(object):
 
 class iMPS(object):
     """infinite MPS"""
+    __array_ufunc__ = None  # a numpy scalar from the left is ours to multiply (__rmul__)
 
     def __init__(self, data=None, canonical=None):
         """__init__
-- 
2.43.0


From 6fa72eb9cd7e318089a076e2b78b3b46761f575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:18 +0000
Subject: [PATCH 79/80] =?UTF-8?q?fix:=20=CF=81A=20of=20an=20array=20of=20s?=
 =?UTF-8?q?ubsystems=20raised,=20or=20kept=20everything=20for=20the=20firs?=
 =?UTF-8?q?t=20one=20alone?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 5e84d8e..6bc863b 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -126,7 +126,7 @@ def ρA(u, keep, dims, optimize=False):
     ρ_a : 2D array
         Traced matrix
     """
-    if not keep:
+    if len(keep) == 0:
         return np.outer(u, u.conj())
     keep = np.asarray(keep)
     dims = np.asarray(dims)
-- 
2.43.0


From b4ef601cfa72042ceb3a5a8755e89d5a411571d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:12 +0000
Subject: [PATCH 80/80] fix: normalising a lattice changed the arrays it shares
 with its turned and flipped copies

fPEPS.normalise divided the corner tensor in place: T, U and R share memory
with the state they come from, so normalising one rescaled the other, an
array handed to the constructor was changed, and a state of whole numbers
could not be normalised.
---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 48a5e9f..b6471d7 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -648,7 +648,7 @@ class fPEPS(object):
         if self.bond_dimension==1:
             self.data = [[x/norm(x) for x in row] for row in self.data]
         else:
-            self.data[0][0] /= self.norm()
+            self.data[0][0] = self.data[0][0]/self.norm()
         return self
 
     def norm(self):
-- 
2.43.0

