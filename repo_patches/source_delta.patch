From a221261db8542efcd8318321f68908f9cf57ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 01/35] fix: non_negative_rightsolve with a one-dimensional
 right hand side

B[np.newaxis, B] indexed B with its own (float) values and raised IndexError.
---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..6dfb4d4 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -18,7 +18,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From 1466d3028c702a38a63b97587e57e308ae20781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 02/35] fix: refitting a CP model used the previous fit's
 cached MTTKRP

SSE read _matrix_khatri_rao_product_cache of the previous target (stale or
None) when the same decomposer was fitted a second time.
---
 src/tenkit/decomposition/cp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..2bbeb24 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -86,6 +86,11 @@ class BaseCP(BaseDecomposer):
         self.ridge_penalties = ridge_penalties
         self.rel_loss_tol = rel_loss_tol
 
+    def set_target(self, X):
+        super().set_target(X)
+        # The cached MTTKRP (if any) belongs to the previous target and factors
+        self._last_updated_mode = None
+
     def init_random(self):
         """Random initialisation of the factor matrices.
 
-- 
2.43.0


From 94e1f0b5bb9ba67e29ca1d76f199c83b6eb4b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 03/35] fix: SSE of a fitted CP model was stale after its
 decomposition changed

The MTTKRP cached by the last factor update was still used after fitting, so
normalising or loading a decomposition gave a wrong SSE.
---
 src/tenkit/decomposition/cp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 2bbeb24..0d41e31 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -428,6 +428,9 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
+        # The factors may be modified or replaced (e.g. normalised or loaded) after fitting
+        self._last_updated_mode = None
+
         if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
             self.store_checkpoint()
 
-- 
2.43.0


From 2a6b52be1f2ab205b7edb9cd39c161e79c8ea5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 04/35] fix: final checkpoint was mislabelled, missing or
 crashed

The final checkpoint was stored under an iteration number one past the last
completed iteration (colliding with the next one when fitting continued),
was skipped when the fit converged right after a multiple of the frequency,
was never stored when the frequency is None although the documentation
promises it, and raised NameError when no iteration was left to run.
CMTF_ALS overrode store_checkpoint with a copy that forgot checkpoint_its.
---
 src/tenkit/decomposition/base_decomposer.py |  39 +-
 src/tenkit/decomposition/cmtf.py            |  10 +-
 src/tenkit/decomposition/cp.py              |   4 +-
 src/tenkit/decomposition/parafac2.py        | 878 ++++++++++----------
 4 files changed, 471 insertions(+), 460 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..cf17b42 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -175,16 +175,19 @@ class BaseDecomposer(ABC):
             self.max_its = max_its
         self._fit()
     
-    def store_checkpoint(self):
+    def store_checkpoint(self, iteration=None):
+        if iteration is None:
+            iteration = self.current_iteration
+
         with h5py.File(self.checkpoint_path, 'a') as h5:
             if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
+                h5.attrs['checkpoint_its'] = [iteration]
             else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], iteration]
 
-            h5.attrs['final_iteration'] = self.current_iteration
+            h5.attrs['final_iteration'] = iteration
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            checkpoint_group = h5.create_group(f'checkpoint_{iteration:05d}')
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
@@ -222,8 +225,28 @@ class BaseDecomposer(ABC):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        if self._checkpoint_is_due(self.current_iteration):
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+        self.current_iteration += 1
+
+    def _checkpoint_is_due(self, iteration):
+        """Whether the regular checkpoint schedule stores the given iteration."""
+        if self.checkpoint_path is None or self.checkpoint_frequency <= 0:
+            return False
+        return (iteration + 1) % self.checkpoint_frequency == 0
+
+    def _store_final_checkpoint(self, first_iteration):
+        """Checkpoint the last completed iteration, unless it is already stored.
+
+        Arguments
+        ---------
+        first_iteration : int
+            The value of ``current_iteration`` when the fitting started.
+        """
+        if self.checkpoint_path is None or self.current_iteration == first_iteration:
+            return
+
+        last_iteration = self.current_iteration - 1
+        if not self._checkpoint_is_due(last_iteration):
+            self.store_checkpoint(last_iteration)
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..6a7c03e 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -8,15 +8,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
+    # TODO: store the coupled matrix factors in the checkpoints as well
 
     @property
     def coupled_factor_matrices(self):
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 0d41e31..a38fe3a 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -413,6 +413,7 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
+        first_iteration = self.current_iteration
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
             if (
@@ -431,8 +432,7 @@ class CP_ALS(BaseCP):
         # The factors may be modified or replaced (e.g. normalised or loaded) after fitting
         self._last_updated_mode = None
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._store_final_checkpoint(first_iteration)
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..f24278c 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -1,441 +1,437 @@
-from abc import abstractmethod
-from pathlib import Path
-import warnings
-import numpy as np
-from .base_decomposer import BaseDecomposer
-from . import decompositions
-from . import cp
-from ..utils import normalize_factors, get_pca_loadings
-from .. import base
-
-
-__all__ = ['Parafac2_ALS']
-
-
-class BaseParafac2(BaseDecomposer):
-    r"""Base class for Parafac2 decomposer objects
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    """
-    DecompositionType = decompositions.Parafac2Tensor
-    def __init__(self, 
-        rank, 
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-    ):
-        super().__init__(
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-
-        self.rank = rank
-        self.init = init
-
-    def set_target(self, X):
-        if not isinstance(X, list):
-            self.target_tensor = X
-            X = X.transpose(2, 0, 1)
-        
-        self.X = X
-        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
-        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
-        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
-
-    def init_random(self):
-        """Random initialisation of the factor matrices
-        """
-        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
-
-    def init_svd(self):
-        """SVD initalisation
-        """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
-
-        for k in range(K):
-            Y += self.X[k].T @ self.X[k]
-
-        A = get_pca_loadings(Y, self.rank)
-        blueprint_B = np.identity(self.rank)
-        C = np.ones((K, self.rank))
-
-        P = [np.eye(J, self.rank) for k in range(K)]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-        self._update_projection_matrices()
-    
-    def init_cp(self):
-        """CP initialisation. Input must be a tensor.
-        """
-        X = np.asarray(self.X)
-        cp_als = cp.CP_ALS(self.rank, 20)
-        cp_als.fit(X)
-        C, A, B = cp_als.factor_matrices
-        P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
-        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
-
-    def init_components(self, initial_decomposition=None):
-        if self.init.lower() == 'svd':
-            self.init_svd()
-        elif self.init.lower() == 'random':
-            self.init_random()
-        elif self.init.lower() == 'cp':
-            self.init_cp()
-        elif self.init.lower() == 'from_checkpoint':
-            self.load_checkpoint(initial_decomposition)
-        elif self.init.lower() == 'precomputed':
-            self._check_valid_components(initial_decomposition)
-            self.decomposition = initial_decomposition
-        elif Path(self.init).is_file():
-            self.load_checkpoint(self.init)
-        else:
-            # TODO: better message
-            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
-
-    def _check_valid_components(self, decomposition):
-        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
-            if factor_matrix.shape[0] != self.X_shape[i]:
-                raise ValueError(
-                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
-                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
-                )
-            if factor_matrix.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-        
-        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
-            if B.shape[0] != X_slice.shape[1]:
-                raise ValueError(
-                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
-                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
-                )
-
-            if B.shape[1] != self.rank:
-                raise ValueError(
-                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
-                )
-
-    @abstractmethod
-    def _fit(self):
-        pass
-
-    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
-        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
-
-        Arguments:
-        ----------
-        X : np.ndarray
-            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
-            The list indices (or first mode) correspond to the C-mode in
-            the following equation
-
-            .. math::
-
-                X_k = A diag(c_k) B_k^T
-            
-            This will be changed in a later version so that the first mode
-            is the evolving mode.
-        y : None
-            Ignored, included to follow sklearn standards.
-        max_its : int (optional)
-            If set, then this will override the class's max_its.
-        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
-            The initial KruskalTensor (init=precomputed) to use or the path of the 
-            logfile to load (init=from_file).
-        """
-
-        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self._fit()
-
-    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
-        return self.decomposition
-
-    @property
-    def loss(self):
-        return self.SSE
-
-    def _fit(self):
-        return 1 - self.SSE/(self.X_norm**2)
-
-    @property
-    def SSE(self):
-        SSE = 0
-        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
-            SSE += np.sum((X_k - reconstructed_X_k)**2)
-        return SSE
-
-    @property
-    def MSE(self):
-        return self.SSE/self.decomposition.num_elements
-        
-    @property
-    def reconstructed_X(self):
-        return self.decomposition.construct_slices()
-    
-    @property
-    def projected_X(self):
-        I = self.decomposition.A.shape[0]
-        K = self.decomposition.C.shape[0]
-        projected_X = np.empty((I, self.rank, K))
-
-        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
-            projected_X[..., k] = self.X[k]@projection_matrix
-        return projected_X
-
-    # TODO: Change name of this function
-    def _update_projection_matrices(self):
-        K = self.X_shape[2]
-
-        for k in range(K):
-            A = self.decomposition.A
-            C = self.decomposition.C
-            blueprint_B = self.decomposition.blueprint_B
-
-            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
-                (C[k]*A)@blueprint_B.T,
-                self.X[k]
-            ).T
-
-            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
-            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
-            #      Where the power is done by truncating very small singular values (for numerical stability)
-
-
-class Parafac2_ALS(BaseParafac2):
-    r"""Decomposer for Parafac2 with ALS optimization
-
-    Arguments:
-    ----------
-    rank: int
-        Number of components 
-    max_its: int (optional, default=1000)
-        Maximum number of iterations for fitting the model. 
-        Can be overwritten by the ``fit`` method.
-    convergence_tol: float (optional, default=1e-6)
-        Minimum relative function change between two consequetive
-        iterations for the model to continue fitting. Computed as
-        
-        .. math::
-
-            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
-        
-        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
-        is the decomposition at iteration :math:`i`.
-    init: str (optional, default = 'random')
-        Initialisation scheme for the decomposer (case insensitive). Options:
-    
-          * Random: Initiate the decomposition as a random Parafac2 tensor
-          * SVD: Use the SVD to find the factor matrices
-          * CP: Run 20 CP iterations and use that decomposition as initial
-          Parafac2 tensor (QR on the evolving mode to split into projection
-          and blueprint matrices)
-          * from_checkpoint: Load the last iteration in the specified
-          checkpoint file (alternatively, just the path to the decomposition file)
-          * Precomputed: Use already existing Parafac2 tensor to initialise
-          the decomposition. 
-    logger: list(Logger) (optional, default=None)
-        List of loggers, each logger should implement a ``log`` method
-        that takes a decomposer as input and a ``write_to_hdf5_group``
-        method that stores the log in a hdf5 group. See 
-        ``tenkit.logging.BaseLogger`` for interface.
-    checkpoint_frequency: int (optional, default=None)
-        How often the decomposer should store the decomposition and
-        logs to disk. If None or negative, will only
-        checkpoint the last iteration. 
-    checkpoint_path: str or Path (optional, default=None)
-        Where to store the log HDF5 file. If None, then the checkpoints
-        and logs are not stored to disk.
-    print_frequency: int (optional, default=None)
-        How often convergence information should be printed in the terminal.
-        None and negative values leads to no printing.
-    cp_updates_per_it: int (optional, default=5)
-        Number of CP iterations to run between each projection matrix update.
-    non_negativity_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        non-negative. If None, no modes are constrained.
-        Note: The evolving mode cannot be constrained. 
-    ridge_penalties: list(float) (optional, default=None)
-        Regularisation parameters. The loss is regularised such that
-
-        .. math::
-
-            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
-
-        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
-        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
-        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
-        If None, no modes are regularised.
-    orthonormality_constraints: list(bool) (optional, default=None)
-        If nth element in the list is True, the nth mode is constrained to be
-        orthonormal. If None, no modes are constrained. Note: all modes should not be
-        orhtonormal and the evolving mode cannot be constrained. 
-    """
-    def __init__(
-        self,
-        rank,
-        max_its=1000, 
-        convergence_tol=1e-6, 
-        init='random',
-        loggers=None,
-        checkpoint_frequency=None,
-        checkpoint_path=None,
-        print_frequency=10,
-        cp_updates_per_it=5,
-        non_negativity_constraints=None,
-        ridge_penalties=None,
-        orthonormality_constraints=None,
-    ):
-        super().__init__(
-            rank,
-            max_its=max_its,
-            convergence_tol=convergence_tol,
-            init=init,
-            loggers=loggers,
-            checkpoint_frequency=checkpoint_frequency,
-            checkpoint_path=checkpoint_path,
-            print_frequency=print_frequency,
-        )
-        self.non_negativity_constraints = non_negativity_constraints
-        if self.non_negativity_constraints is None:
-            self.non_negativity_constraints = [False, False, False]
-        if self.non_negativity_constraints[1]:
-            warnings.warn(
-                "Non negativity constraints on the evolving (second) mode will only"
-                " be imposed on the blueprint matrix, not the evolving components.",
-                RuntimeWarning
-            )
-
-        self.cp_updates_per_it = cp_updates_per_it
-        self.ridge_penalties = ridge_penalties
-        self.orthonormality_constraints = orthonormality_constraints
-
-    def _init_fit(self, X, max_its, initial_decomposition):
-        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        self.prev_loss = self.loss
-        self._rel_function_change = np.inf
-
-    def _prepare_cp_decomposer(self):
-        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
-        self.cp_decomposer = cp.CP_ALS(
-            self.rank,
-            max_its=np.inf, 
-            convergence_tol=0,
-            print_frequency=-1, 
-            non_negativity_constraints=self.non_negativity_constraints,
-            ridge_penalties=self.ridge_penalties,
-            orthonormality_constraints=self.orthonormality_constraints,
-            init='precomputed'
-        )
-        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
-
-    def _fit(self):
-
-        self._prepare_cp_decomposer()
-        for it in range(self.max_its - self.current_iteration):
-            if abs(self._rel_function_change) < self.convergence_tol:
-                break
-
-            self._update_parafac2_factors()
-            self._update_convergence()
-
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
-                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
-                      f'improvement is {self._rel_function_change:g}')
-
-            self._after_fit_iteration()
-
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
-
-    def _update_convergence(self):
-        loss = self.loss
-        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
-        self.prev_loss = loss
-
-    def _update_parafac2_factors(self):
-        #print('Before projection update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        self._update_projection_matrices()
-
-        #print('Before ALS update') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-
-        self.cp_decomposer.set_target(self.projected_X)
-        for _ in range(self.cp_updates_per_it):
-            self.cp_decomposer._update_als_factors()
-        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
-        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
-        #print('After iteration') 
-        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
-        # from pdb import set_trace; set_trace()
-
-    @property
-    def loss(self):
-        loss = self.SSE
-        if self.ridge_penalties is not None:
-            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
-            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
-                loss += penalty*np.linalg.norm(factor)**2
-        return loss
+from abc import abstractmethod
+from pathlib import Path
+import warnings
+import numpy as np
+from .base_decomposer import BaseDecomposer
+from . import decompositions
+from . import cp
+from ..utils import normalize_factors, get_pca_loadings
+from .. import base
+
+
+__all__ = ['Parafac2_ALS']
+
+
+class BaseParafac2(BaseDecomposer):
+    r"""Base class for Parafac2 decomposer objects
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1})}{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    """
+    DecompositionType = decompositions.Parafac2Tensor
+    def __init__(self, 
+        rank, 
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+    ):
+        super().__init__(
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+
+        self.rank = rank
+        self.init = init
+
+    def set_target(self, X):
+        if not isinstance(X, list):
+            self.target_tensor = X
+            X = X.transpose(2, 0, 1)
+        
+        self.X = X
+        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
+        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
+        self.num_X_elements = sum([np.prod(s) for s in self.X_shape])
+
+    def init_random(self):
+        """Random initialisation of the factor matrices
+        """
+        self.decomposition = self.DecompositionType.random_init(self.X_shape, rank=self.rank)
+
+    def init_svd(self):
+        """SVD initalisation
+        """
+        # TODO: This does not work for irregular tensors
+        K = self.X_shape[2]
+        J = self.X_shape[1]
+        Y = np.zeros([J, J])
+
+        for k in range(K):
+            Y += self.X[k].T @ self.X[k]
+
+        A = get_pca_loadings(Y, self.rank)
+        blueprint_B = np.identity(self.rank)
+        C = np.ones((K, self.rank))
+
+        P = [np.eye(J, self.rank) for k in range(K)]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+        self._update_projection_matrices()
+    
+    def init_cp(self):
+        """CP initialisation. Input must be a tensor.
+        """
+        X = np.asarray(self.X)
+        cp_als = cp.CP_ALS(self.rank, 20)
+        cp_als.fit(X)
+        C, A, B = cp_als.factor_matrices
+        P, blueprint_B = np.linalg.qr(B)
+        P = [P for _ in range(len(self.X))]
+        self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
+
+    def init_components(self, initial_decomposition=None):
+        if self.init.lower() == 'svd':
+            self.init_svd()
+        elif self.init.lower() == 'random':
+            self.init_random()
+        elif self.init.lower() == 'cp':
+            self.init_cp()
+        elif self.init.lower() == 'from_checkpoint':
+            self.load_checkpoint(initial_decomposition)
+        elif self.init.lower() == 'precomputed':
+            self._check_valid_components(initial_decomposition)
+            self.decomposition = initial_decomposition
+        elif Path(self.init).is_file():
+            self.load_checkpoint(self.init)
+        else:
+            # TODO: better message
+            raise ValueError('Init method must be either `random`, `svd`, `from_checkpoint` or `precomputed`.')
+
+    def _check_valid_components(self, decomposition):
+        for i, factor_matrix, factor_name in zip([0, 2], [decomposition.A, decomposition.C], ['A', 'C']):
+            if factor_matrix.shape[0] != self.X_shape[i]:
+                raise ValueError(
+                    f"The length of factor matrix {factor_name} ({factor_matrix.shape[0]}"
+                    f"is not the same as the length of X's dimension {i} ({self.X_shape[i]})"
+                )
+            if factor_matrix.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+        
+        for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
+            if B.shape[0] != X_slice.shape[1]:
+                raise ValueError(
+                    f"The number of rows of factor matrix B_{k} ({B.shape[0]}"
+                    f"is not the same as the number of columns of X_{k} ({X_slice.shape[1]})"
+                )
+
+            if B.shape[1] != self.rank:
+                raise ValueError(
+                    f"The number of columns of B_{k} ({B.shape[1]}) does not agree with the models rank ({self.rank})"
+                )
+
+    @abstractmethod
+    def _fit(self):
+        pass
+
+    def fit(self, X, y=None, max_its=None, initial_decomposition=None):
+        """Fit a parafac2 model. Precomputed components must be specified if init method is 'precomputed'
+
+        Arguments:
+        ----------
+        X : np.ndarray
+            The tensor or list of tensor slices to fit a PARAFAC2 model to. 
+            The list indices (or first mode) correspond to the C-mode in
+            the following equation
+
+            .. math::
+
+                X_k = A diag(c_k) B_k^T
+            
+            This will be changed in a later version so that the first mode
+            is the evolving mode.
+        y : None
+            Ignored, included to follow sklearn standards.
+        max_its : int (optional)
+            If set, then this will override the class's max_its.
+        initial_decomposition : tenkit.decomposition.decompositions.Parafac2Tensor or str
+            The initial KruskalTensor (init=precomputed) to use or the path of the 
+            logfile to load (init=from_file).
+        """
+
+        self._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self._fit()
+
+    def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
+        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        return self.decomposition
+
+    @property
+    def loss(self):
+        return self.SSE
+
+    def _fit(self):
+        return 1 - self.SSE/(self.X_norm**2)
+
+    @property
+    def SSE(self):
+        SSE = 0
+        for X_k, reconstructed_X_k, in zip(self.X, self.reconstructed_X):
+            SSE += np.sum((X_k - reconstructed_X_k)**2)
+        return SSE
+
+    @property
+    def MSE(self):
+        return self.SSE/self.decomposition.num_elements
+        
+    @property
+    def reconstructed_X(self):
+        return self.decomposition.construct_slices()
+    
+    @property
+    def projected_X(self):
+        I = self.decomposition.A.shape[0]
+        K = self.decomposition.C.shape[0]
+        projected_X = np.empty((I, self.rank, K))
+
+        for k, projection_matrix in enumerate(self.decomposition.projection_matrices):
+            projected_X[..., k] = self.X[k]@projection_matrix
+        return projected_X
+
+    # TODO: Change name of this function
+    def _update_projection_matrices(self):
+        K = self.X_shape[2]
+
+        for k in range(K):
+            A = self.decomposition.A
+            C = self.decomposition.C
+            blueprint_B = self.decomposition.blueprint_B
+
+            self.decomposition.projection_matrices[k][...] = base.orthogonal_solve(
+                (C[k]*A)@blueprint_B.T,
+                self.X[k]
+            ).T
+
+            # Should_keep = diag([1, 1, ..., 1, 0, 0, ..., 0]) -> the zeros correspond to small singular values
+            # Following Rasmus Bro's PARAFAC2 MATLAB script, which sets P_k = Q_k(Q_k'Q_k)^(-0.5) (line 524)
+            #      Where the power is done by truncating very small singular values (for numerical stability)
+
+
+class Parafac2_ALS(BaseParafac2):
+    r"""Decomposer for Parafac2 with ALS optimization
+
+    Arguments:
+    ----------
+    rank: int
+        Number of components 
+    max_its: int (optional, default=1000)
+        Maximum number of iterations for fitting the model. 
+        Can be overwritten by the ``fit`` method.
+    convergence_tol: float (optional, default=1e-6)
+        Minimum relative function change between two consequetive
+        iterations for the model to continue fitting. Computed as
+        
+        .. math::
+
+            \frac{L(X_i) - L(X_{i+1}) }{L(X_{i+1})},
+        
+        where :math:`L` is the loss (Sum squared error) and :math:`X_i`
+        is the decomposition at iteration :math:`i`.
+    init: str (optional, default = 'random')
+        Initialisation scheme for the decomposer (case insensitive). Options:
+    
+          * Random: Initiate the decomposition as a random Parafac2 tensor
+          * SVD: Use the SVD to find the factor matrices
+          * CP: Run 20 CP iterations and use that decomposition as initial
+          Parafac2 tensor (QR on the evolving mode to split into projection
+          and blueprint matrices)
+          * from_checkpoint: Load the last iteration in the specified
+          checkpoint file (alternatively, just the path to the decomposition file)
+          * Precomputed: Use already existing Parafac2 tensor to initialise
+          the decomposition. 
+    logger: list(Logger) (optional, default=None)
+        List of loggers, each logger should implement a ``log`` method
+        that takes a decomposer as input and a ``write_to_hdf5_group``
+        method that stores the log in a hdf5 group. See 
+        ``tenkit.logging.BaseLogger`` for interface.
+    checkpoint_frequency: int (optional, default=None)
+        How often the decomposer should store the decomposition and
+        logs to disk. If None or negative, will only
+        checkpoint the last iteration. 
+    checkpoint_path: str or Path (optional, default=None)
+        Where to store the log HDF5 file. If None, then the checkpoints
+        and logs are not stored to disk.
+    print_frequency: int (optional, default=None)
+        How often convergence information should be printed in the terminal.
+        None and negative values leads to no printing.
+    cp_updates_per_it: int (optional, default=5)
+        Number of CP iterations to run between each projection matrix update.
+    non_negativity_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        non-negative. If None, no modes are constrained.
+        Note: The evolving mode cannot be constrained. 
+    ridge_penalties: list(float) (optional, default=None)
+        Regularisation parameters. The loss is regularised such that
+
+        .. math::
+
+            L_{reg} = L + \sum_i \lambda_i ||U_i||_F^2
+
+        Where :math:`L_{reg}` is the regularised loss, :math:`L` is the unregularised
+        loss, :math:`\lambda_i` is the ith element in ``ridge_penalites`` and :math:`U_i`
+        is the ith factor matrix (or blueprint factor matrix for the evolving mode). 
+        If None, no modes are regularised.
+    orthonormality_constraints: list(bool) (optional, default=None)
+        If nth element in the list is True, the nth mode is constrained to be
+        orthonormal. If None, no modes are constrained. Note: all modes should not be
+        orhtonormal and the evolving mode cannot be constrained. 
+    """
+    def __init__(
+        self,
+        rank,
+        max_its=1000, 
+        convergence_tol=1e-6, 
+        init='random',
+        loggers=None,
+        checkpoint_frequency=None,
+        checkpoint_path=None,
+        print_frequency=10,
+        cp_updates_per_it=5,
+        non_negativity_constraints=None,
+        ridge_penalties=None,
+        orthonormality_constraints=None,
+    ):
+        super().__init__(
+            rank,
+            max_its=max_its,
+            convergence_tol=convergence_tol,
+            init=init,
+            loggers=loggers,
+            checkpoint_frequency=checkpoint_frequency,
+            checkpoint_path=checkpoint_path,
+            print_frequency=print_frequency,
+        )
+        self.non_negativity_constraints = non_negativity_constraints
+        if self.non_negativity_constraints is None:
+            self.non_negativity_constraints = [False, False, False]
+        if self.non_negativity_constraints[1]:
+            warnings.warn(
+                "Non negativity constraints on the evolving (second) mode will only"
+                " be imposed on the blueprint matrix, not the evolving components.",
+                RuntimeWarning
+            )
+
+        self.cp_updates_per_it = cp_updates_per_it
+        self.ridge_penalties = ridge_penalties
+        self.orthonormality_constraints = orthonormality_constraints
+
+    def _init_fit(self, X, max_its, initial_decomposition):
+        super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        self.prev_loss = self.loss
+        self._rel_function_change = np.inf
+
+    def _prepare_cp_decomposer(self):
+        self.cp_decomposition = decompositions.KruskalTensor([self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C])
+        self.cp_decomposer = cp.CP_ALS(
+            self.rank,
+            max_its=np.inf, 
+            convergence_tol=0,
+            print_frequency=-1, 
+            non_negativity_constraints=self.non_negativity_constraints,
+            ridge_penalties=self.ridge_penalties,
+            orthonormality_constraints=self.orthonormality_constraints,
+            init='precomputed'
+        )
+        self.cp_decomposer._init_fit(X=self.projected_X, max_its=np.inf, initial_decomposition=self.cp_decomposition)
+
+    def _fit(self):
+
+        self._prepare_cp_decomposer()
+        first_iteration = self.current_iteration
+        for it in range(self.max_its - self.current_iteration):
+            if abs(self._rel_function_change) < self.convergence_tol:
+                break
+
+            self._update_parafac2_factors()
+            self._update_convergence()
+
+            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+                print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
+                      f'improvement is {self._rel_function_change:g}')
+
+            self._after_fit_iteration()
+
+        self._store_final_checkpoint(first_iteration)
+
+    def _update_convergence(self):
+        loss = self.loss
+        self._rel_function_change = (self.prev_loss - loss)/self.prev_loss
+        self.prev_loss = loss
+
+    def _update_parafac2_factors(self):
+        #print('Before projection update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        self._update_projection_matrices()
+
+        #print('Before ALS update') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+
+        self.cp_decomposer.set_target(self.projected_X)
+        for _ in range(self.cp_updates_per_it):
+            self.cp_decomposer._update_als_factors()
+        self.decomposition.blueprint_B[...] *= self.cp_decomposer.weights
+        self.cp_decomposition.weights = self.cp_decomposition.weights*0 + 1
+        #print('After iteration') 
+        #print(f'The MSE is {self.MSE: 4f}, f is {self.loss:4f}')
+        # from pdb import set_trace; set_trace()
+
+    @property
+    def loss(self):
+        loss = self.SSE
+        if self.ridge_penalties is not None:
+            factor_matrices = [self.decomposition.A, self.decomposition.blueprint_B, self.decomposition.C]
+            for factor, penalty in zip(factor_matrices, self.ridge_penalties):
+                loss += penalty*np.linalg.norm(factor)**2
+        return loss
-- 
2.43.0


From 25ca0d9301273e52e3f5986ea5216ca8e9770c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 05/35] fix: continuing from a checkpoint repeated the loaded
 iteration number

The checkpoint labelled i is stored after iteration i, but fitting resumed
with current_iteration = i, so that the next checkpoint could collide with the
loaded one (ValueError: name already exists).
---
 src/tenkit/decomposition/base_decomposer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index cf17b42..d61c688 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -209,7 +209,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -220,6 +219,8 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
+        # Iteration load_it is completed, so fitting continues with the next one
+        self.current_iteration = load_it + 1
     
     def _after_fit_iteration(self):
         for logger in self.loggers:
-- 
2.43.0


From 662cd8f4af542b97a7b31d96fba8bdd806113c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 06/35] fix: Parafac2 fit_transform ignored max_its and
 initial_decomposition

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index f24278c..a20b2d4 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -205,7 +205,7 @@ class BaseParafac2(BaseDecomposer):
         self._fit()
 
     def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition
 
     @property
-- 
2.43.0


From 09e5ed314984a975e6a8fd828c50900055d2afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 07/35] fix: Parafac2 CP initialisation shared one projection
 matrix between all slices

The projection update writes in place, so every slice ended up with the last
slice's projection matrix.
---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a20b2d4..fbe7b05 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -127,7 +127,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From 536e8c6980ed1ed2a60285e1e5ea2ac19f73d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 08/35] fix: orthonormal initialisation detached factors from
 the decomposition

Replacing the array in the list broke the sharing between the PARAFAC2
decomposition and its inner CP decomposition, so constrained modes were never
updated.
---
 src/tenkit/decomposition/cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index a38fe3a..8ac01f4 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -348,7 +348,7 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+                fm[...] = np.linalg.qr(fm)[0]
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 8c1c9e1e86b87840b805e2311a117548cf3304d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 09/35] fix: loading an EvolvingTensor passed an unknown
 keyword argument

---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..745bf64 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From c81938e0ed45c8fa7c5a79573964ca20d24c2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 10/35] fix: number of elements of an evolving tensor

Only the widths of the slices were summed, so the PARAFAC2 MSE was too large by
a factor of the first mode's length.
---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 745bf64..c78a7a0 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -322,7 +322,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum((shape[0]*shape[1] for shape in self.slice_shapes))
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -599,7 +599,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From 9b91eb7787996ebf312186c8d80d68a7893cf912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 11/35] fix: Parafac2Tensor.get_single_component_decomposition
 always raised

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index c78a7a0..f7fad88 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -697,7 +697,7 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [B_k[:, component, np.newaxis] for B_k in self.B]
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
-- 
2.43.0


From a12bd6bb58379810e04dcc6ba22fbfb2478d92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 12/35] fix: Parafac2Tensor.factor_match_score raised for
 irregular slices

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f7fad88..7ad2149 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -687,8 +687,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
-- 
2.43.0


From f9a17c63d8e39e8ae5dcc32a7255d35b77fe29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 13/35] fix: mode-wise factor match scores called functions
 that do not exist

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7ad2149..b3c370d 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From 50db26db8b4428e9a505885037074113cf6e221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 14/35] fix: converting a Kruskal tensor to an evolving tensor
 dropped its weights

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index b3c370d..7da8d3a 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -334,7 +334,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
         if len(ktensor.factor_matrices) != 3:
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
-        A = ktensor.factor_matrices[0]
+        A = ktensor.factor_matrices[0]*ktensor.weights
         B = ktensor.factor_matrices[1]
         C = ktensor.factor_matrices[2]
 
-- 
2.43.0


From 7592a3cc7be284b47d44be0904074c31037cd7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 15/35] fix: KruskalTensor.core_consistency ignored the weights

---
 src/tenkit/decomposition/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7da8d3a..f382fad 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -273,7 +273,8 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        A, B, C = self.factor_matrices
+        return metrics.core_consistency(X, A*self.weights, B, C, normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From 7a5680968fc6b136da22db8e6c6bbd9ef3edd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 16/35] fix: Parafac2 SVD initialisation always raised

X_shape[1] is a list, and the first mode's loadings were computed from the
evolving mode's cross products.
---
 src/tenkit/decomposition/parafac2.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index fbe7b05..8b43bf1 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,17 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        I, J, K = self.X_shape
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J_k, self.rank) for J_k in J]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From 46955e084a0ce76c4804ef516fe8db06073ca4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 17/35] fix: KruskalTensor.get_signs returned 0 for a component
 with zero sign score

Multiplying a component with its sign then removed it from the tensor.
---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f382fad..4284666 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -237,10 +237,10 @@ class KruskalTensor(BaseDecomposedTensor):
             ]
 
             for factor_num, factor_sign_score in enumerate(single_rank_sign_scores):
-                signs[factor_num][rank] = np.sign(factor_sign_score)
+                signs[factor_num][rank] = -1 if factor_sign_score < 0 else 1
 
             # Find the mode that should not be flipped
-            single_rank_signs = np.sign(single_rank_sign_scores)
+            single_rank_signs = [mode_signs[rank] for mode_signs in signs]
             if np.prod(single_rank_signs) == -1:
                 wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))
                 signs[wrongly_flipped][rank] *= -1
-- 
2.43.0


From 966ccec5f4132828cafc66d544ddb187c0d16cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:23 +0000
Subject: [PATCH 18/35] fix: initial decompositions with the wrong number of
 modes were accepted

---
 src/tenkit/decomposition/cp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 8ac01f4..e21d326 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -119,6 +119,12 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        if len(decomposition.factor_matrices) != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({len(decomposition.factor_matrices)}) is not the same as"
+                f" the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
-- 
2.43.0


From 2469cc02a7f6d61d7e6b00b67b8950df6ad223ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 19/35] fix: constrained and regularised CP updates solved the
 wrong problem

The non-negative, orthonormal and ridge solvers were given the normal equations
X V = M as if they were the least squares problem, which minimises ||X V - M||
instead of ||X Z^T - X_(n)||. The loss could therefore increase.
---
 src/tenkit/decomposition/cp.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index e21d326..3f31133 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -362,8 +362,23 @@ class CP_ALS(BaseCP):
         self._matrix_khatri_rao_product_cache = None
         # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
 
+    def _uses_normal_equations(self, mode):
+        """Whether the factor is found from the normal equations of the least squares problem.
+
+        Only the unconstrained and unregularised problem is equivalent to (the least squares
+        solution of) its normal equations, the others must be solved on their original form.
+        """
+        return (
+            not self.non_negativity_constraints[mode]
+            and not self.orthonormality_constraints[mode]
+            and self.ridge_penalties is None
+        )
+
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
+        if not self._uses_normal_equations(skip_mode):
+            return base.khatri_rao(*self.factor_matrices, skip=skip_mode).T
+
         V = np.ones((self.rank, self.rank))
         for i, factor in enumerate(self.factor_matrices):
             if i == skip_mode:
@@ -372,6 +387,9 @@ class CP_ALS(BaseCP):
         return V
     
     def _get_als_rhs(self, mode):
+        if not self._uses_normal_equations(mode):
+            return base.unfold(self.X, mode)
+
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
     def _get_rightsolve(self, mode):
@@ -401,7 +419,10 @@ class CP_ALS(BaseCP):
         rightsolve = self._get_rightsolve(mode)
 
         self._last_updated_mode = mode
-        self._matrix_khatri_rao_product_cache = rhs
+        if self._uses_normal_equations(mode):
+            self._matrix_khatri_rao_product_cache = rhs
+        else:
+            self._matrix_khatri_rao_product_cache = rhs @ lhs.T
 
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
-- 
2.43.0


From f7bcda481a4188dfc079ebb550416c7c4b812db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 20/35] fix: non-negative CMTF called a method that does not
 exist

---
 src/tenkit/decomposition/cmtf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 6a7c03e..65a37dc 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -138,10 +138,7 @@ class CMTF_ALS(CP_ALS):
     def _update_als_factors(self):
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+            self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
-- 
2.43.0


From 86bf17a78f8e7203a80f04c35e40160b0d30cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 21/35] fix: CMTF MSE counted the elements of the factors
 instead of the coupled matrices

---
 src/tenkit/decomposition/cmtf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 65a37dc..8aa1c62 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -39,7 +39,7 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
-- 
2.43.0


From dd4011a91e5e99a6fc5975fd44c49d75f518398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 22/35] fix: CMTF ignored all but the first matrix coupled to a
 mode

---
 src/tenkit/decomposition/cmtf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 8aa1c62..819ad11 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -144,25 +144,23 @@ class CMTF_ALS(CP_ALS):
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
-            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
-            return np.concatenate([khatri_rao_product, V], axis=0).T
+            Vs = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
+            return np.concatenate([khatri_rao_product, *Vs], axis=0).T
         else:
             return super()._get_als_lhs(mode)
     
     def _get_als_rhs(self, mode):
         if mode in self.mode_to_cm_idx:
             unfolded_X = base.unfold(self.X, mode)
-            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
+            coupled_Ys = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
 
-            return np.concatenate([unfolded_X, coupled_Y], axis=1)
+            return np.concatenate([unfolded_X, *coupled_Ys], axis=1)
         else:
             return super()._get_als_rhs(mode)
 
 
     def _update_uncoupled_matrix_factors(self):
-        for mode, cm_idx in self.mode_to_cm_idx.items():
-            cm_idx = self.mode_to_cm_idx[mode][0]
-            
+        for cm_idx, mode in enumerate(self.coupling_modes):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-- 
2.43.0


From 811ac2366d28389cf09884f63844cc438f85885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 23/35] fix: CMTF initialisation moved the component norms to
 the weights

The ALS updates ignore the weights, so the fitted tensor was scaled with the
norms of the initial components.
---
 src/tenkit/decomposition/cmtf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 819ad11..d2be15e 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -68,10 +68,10 @@ class CMTF_ALS(CP_ALS):
     def _init_fit(self, X, coupled_matrices, coupling_modes, max_its, initial_decomposition):
         self.set_coupled_matrices(coupled_matrices, coupling_modes)
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        # The weights are not part of the ALS updates, so they must stay equal to one
+        self.decomposition.normalize_components(update_weights=False)
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-        
-        self.decomposition.normalize_components()
 
     def _fit(self):
         super()._fit()
-- 
2.43.0


From 2e46e0ac6a781f4aba84647c150f98c4b050494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:57 +0000
Subject: [PATCH 24/35] fix: CMTF loss did not include the ridge penalties

---
 src/tenkit/decomposition/cmtf.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index d2be15e..2983771 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -46,10 +46,6 @@ class CMTF_ALS(CP_ALS):
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From d8180ac420840a544def25b2275612007b6af658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 25/35] fix: weights of an initial Kruskal tensor were dropped

The weights were reset without moving them to the factor matrices, so the fit
started from another tensor than the one supplied.
---
 src/tenkit/decomposition/cp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 3f31133..242fc6c 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -346,6 +346,8 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        # The ALS updates ignore the weights, move them to the first factor matrix
+        self.factor_matrices[0][...] *= self.weights
         self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
-- 
2.43.0


From 405c36e65b9780079ebcfc312d1ba94e6695f9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 26/35] fix: continue_fit of a CMTF model ignored the weights

The weights are set when the fitted components are normalised, but the ALS
updates assume that they are one.
---
 src/tenkit/decomposition/cmtf.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 2983771..5b77a9c 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -70,8 +70,21 @@ class CMTF_ALS(CP_ALS):
         self.prev_SSE = self.SSE
 
     def _fit(self):
+        self._absorb_weights()
         super()._fit()
         self._normalize_components()
+
+    def _absorb_weights(self):
+        """Move the weights to the first mode without changing any reconstruction.
+
+        The weights are different from one when fitting continues, and the ALS updates ignore them.
+        """
+        weights = self.weights.copy()
+        self.factor_matrices[0][...] *= weights
+        for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
+            if coupling_mode == 0:
+                uncoupled_matrix[...] /= np.where(weights == 0, 1, weights)
+        self.decomposition.reset_weights()
     
     def _normalize_components(self):
         for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
-- 
2.43.0


From 35cb18a6ac9cc7dc00916a0ad9b301e298f11e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 27/35] fix: rightsolve inverted singular values that are zero
 up to rounding errors

A numerically rank deficient system (for example a CP model with more components
than its subproblem can determine) got factors of the order of 1e16, so that the
loss of the alternating least squares iterations exploded.
---
 src/tenkit/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 6dfb4d4..b4fd0a5 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -8,7 +8,11 @@ def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
     U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
+    # Singular values that are zero up to rounding errors must not be inverted
+    S_tol = max(A.shape) * S[0] * (1e-15)
+    should_keep = S > S_tol
+    S[should_keep] = 1/S[should_keep]
+    S[~should_keep] = 0
 
     return B @ (Vh.T * S @ U.T)
 
-- 
2.43.0


From 4e09890de3ad06de1e8deb2b8d3a005bb9db0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 28/35] fix: initial PARAFAC2 decompositions with the wrong
 number of slices were accepted

---
 src/tenkit/decomposition/parafac2.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 8b43bf1..1c049b3 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -158,6 +158,12 @@ class BaseParafac2(BaseDecomposer):
                     f"The number of columns of {factor_name} ({factor_matrix.shape[1]}) does not agree with the models rank ({self.rank})"
                 )
         
+        if len(decomposition.B) != len(self.X):
+            raise ValueError(
+                f"The number of evolving factor matrices ({len(decomposition.B)}) is not the same as"
+                f" the number of slices of X ({len(self.X)})."
+            )
+
         for k, (B, X_slice) in enumerate(zip(decomposition.B, self.X)):
             if B.shape[0] != X_slice.shape[1]:
                 raise ValueError(
-- 
2.43.0


From d3a8e7bc41e69704b2afc2b7cd3960fa41ff99a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 29/35] fix: PARAFAC2 SVD initialisation with a too high rank
 gave invalid projection matrices

---
 src/tenkit/decomposition/parafac2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 1c049b3..77f32bd 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -103,6 +103,11 @@ class BaseParafac2(BaseDecomposer):
         """SVD initalisation
         """
         I, J, K = self.X_shape
+        if self.rank > min(I, *J):
+            raise ValueError(
+                "SVD initialisation does not work when rank is larger than the number of rows or columns of a slice of X."
+                f" (rank:{self.rank}, dimensions: {self.X_shape})"
+            )
         Y = np.zeros([I, I])
 
         for k in range(K):
-- 
2.43.0


From c00a5d301e0e6b8f1ea373369554440c35e6ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 30/35] fix: continue_fit of a CP model ignored the weights

---
 src/tenkit/decomposition/cp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 242fc6c..1328caa 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -442,6 +442,11 @@ class CP_ALS(BaseCP):
     def _fit(self):
         """Fit a CP model with Alternating Least Squares.
         """
+        # The weights are different from one if the components were normalised after the previous
+        # fit. The ALS updates ignore them, move them to the first factor matrix
+        self.factor_matrices[0][...] *= self.weights
+        self.decomposition.reset_weights()
+
         first_iteration = self.current_iteration
         for it in range(self.max_its - self.current_iteration):
             rel_loss = self.SSE/self.X_norm**2
-- 
2.43.0


From 09c6f46f797d8c0abc608dec95b8c1ec46b83ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 31/35] fix: fitting PARAFAC2 with print_frequency=0 divided by
 zero

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 77f32bd..7450008 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -406,7 +406,7 @@ class Parafac2_ALS(BaseParafac2):
             self._update_parafac2_factors()
             self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
                 print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                       f'improvement is {self._rel_function_change:g}')
 
-- 
2.43.0


From 2f64169e7509e61560e5358d38c6e3cc94b7362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 32/35] fix: (re)starting a fit flipped the signs of
 orthonormal factors

---
 src/tenkit/decomposition/cp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 1328caa..4977983 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -356,7 +356,9 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                fm[...] = np.linalg.qr(fm)[0]
+                # The signs are chosen such that a factor that already is orthonormal stays unchanged
+                Q, R = np.linalg.qr(fm)
+                fm[...] = Q*np.where(np.diag(R) < 0, -1, 1)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From ccff9f32cb7173b0fc5ab62ae9139234b3966cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:41 +0000
Subject: [PATCH 33/35] fix: create_data and create_non_negative_data construct
 the tensor of the factors

They called base.ktensor, which does not exist.
---
 src/tenkit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..896e87b 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -37,7 +37,7 @@ def create_random_factors(sizes, rank):
 
 def create_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
@@ -55,7 +55,7 @@ def create_random_uniform_factors(sizes, rank):
 
 def create_non_negative_data(sizes, rank, noise_factor=0):
     factors, norms = create_random_uniform_factors(sizes=sizes, rank=rank)
-    tensor = base.ktensor(*tuple(factors))
+    tensor = base.fold(factors[0] @ base.khatri_rao(*factors[1:]).T, 0, shape=sizes)
 
     noise = np.random.randn(*sizes)
     noise /= np.linalg.norm(noise)
-- 
2.43.0


From 85449952bc78e1ac724527b5eba82d5d7d573daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:59 +0000
Subject: [PATCH 34/35] fix: integer factor matrices truncated the updates and
 the normalisation

The factors are updated in place. Integer factor matrices (of e.g. a precomputed start) either
raised a casting error or silently rounded every update towards zero.
---
 src/tenkit/decomposition/decompositions.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 4284666..bc59e41 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -9,6 +9,16 @@ from .. import utils
 __all__ = ['KruskalTensor', 'EvolvingTensor', 'Parafac2Tensor']
 
 
+def _without_integers(matrices):
+    """Returns the matrices with integer matrices converted to floats.
+
+    The factors are updated in place, which truncates the updates of integer matrices.
+    """
+    if not any(matrix.dtype.kind in 'biu' for matrix in matrices):
+        return matrices
+    return [np.asarray(matrix, dtype=float) for matrix in matrices]
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -116,7 +126,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = factor_matrices
+        self.factor_matrices = _without_integers(factor_matrices)
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -125,7 +135,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'There must be as many weights as there are columns in the factor matrices.'
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
-        self.weights = np.asarray(weights)
+        self.weights = np.asarray(weights, dtype=float)
     
     @property
     def shape(self):
@@ -591,11 +601,9 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = A
-        self._blueprint_B = blueprint_B
-        self._C = C
-        self._projection_matrices = tuple(projection_matrices)
-        self._B = ProjectedFactor(blueprint_B, self._projection_matrices)
+        self._A, self._blueprint_B, self._C = _without_integers([A, blueprint_B, C])
+        self._projection_matrices = tuple(_without_integers(projection_matrices))
+        self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
-- 
2.43.0


From 25ff24b304cde6d5f31cd5ee5bf8343a39ba5150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:36 +0000
Subject: [PATCH 35/35] fix: flip_factors refused integer factor matrices

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 896e87b..1c372f5 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -14,7 +14,7 @@ def flip_factors(factor_matrices):
             if s == 0:
                 sign[k] = _find_first_nonzero_sign(factor[:, k])
 
-        factor_matrices[i] *= sign
+        factor_matrices[i] = factor_matrices[i]*sign
         signs.append(sign)
     return factor_matrices, signs
 
-- 
2.43.0

