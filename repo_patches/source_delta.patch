From f17d0678a46b081d0feb3c00683877a0a3c45025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 01/50] fix: accept operator pairs as collapse operators in
 Liouvillian

---
 src/quanguru/QuantumToolbox/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index aa3ac4b..65c4926 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -147,12 +147,12 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
 
     if isinstance(collapseOperators, list):
         for idx, collapseOperator in enumerate(collapseOperators):
-            if collapseOperator.shape[0] == dimensionOfHilbertSpace:
+            if isinstance(collapseOperator, tuple):
+                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
+            elif collapseOperator.shape[0] == dimensionOfHilbertSpace:
                 collapsePart = dissipator(collapseOperator, identity=identity, _double=_double)
             elif collapseOperator.shape[0] == (dimensionOfHilbertSpace**2):
                 collapsePart = collapseOperator
-            elif isinstance(collapseOperator, tuple):
-                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
             else:
                 raise ValueError("Dimension mismatch")
 
-- 
2.43.0


From d2672035ae54435bd7f59f200ca5f95d1f40d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 02/50] fix: evolve without collapse operators in evolveOpen

---
 src/quanguru/QuantumToolbox/evolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 65c4926..1d14895 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -378,8 +378,10 @@ def evolveOpen(initialState, totalTime, timeStep: float = 1.0, Hamiltonian: Opti
                collapseOperators: Optional[List] = None, decayRates: Optional[List] = None,
                calcFunc: Optional[Callable] = None, delStates: Optional[bool] = False, _double: bool = False) -> Matrix: # pylint: disable=dangerous-default-value
     # TODO : write docstrings
-    LiouExp = LiouvillianExp(Hamiltonian, timeStep=timeStep, collapseOperators=collapseOperators, decayRates=decayRates,
-                             _double = _double)
+    # the states are propagated in vectorised form, so the super-operator is needed also without collapse operators
+    LiouExp = LiouvillianExp(Hamiltonian, timeStep=timeStep,
+                             collapseOperators=[] if collapseOperators is None else collapseOperators,
+                             decayRates=decayRates, _double = _double)
     rhoL = initialState
     if initialState.shape[0] != initialState.shape[1]:
         rhoL = densityMatrix(initialState)
-- 
2.43.0


From f27108b20c110558fd0efd666aedb32b1b63d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 03/50] fix: completeBasisMat no longer overwrites the ket
 basis it is given

---
 src/quanguru/QuantumToolbox/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 45e044a..88038ba 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -419,7 +419,7 @@ def completeBasisMat(dimension: Optional[int] = None, compKetBase: Optional[matr
             raise ValueError('err')
         compBase = completeBasis(dimension, sparse)
     else:
-        compBase = compKetBase
+        compBase = list(compKetBase)
 
     for i, state in enumerate(compBase):
         compBase[i] = densityMatrix(state)
-- 
2.43.0


From 2ddde5acca19b2dc5f16a2c6f568b72df8a31a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 04/50] fix: qubit term of the qubit-cavity Hamiltonians is
 half the frequency, as documented

---
 src/quanguru/QuantumToolbox/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/Hamiltonians.py b/src/quanguru/QuantumToolbox/Hamiltonians.py
index 11b1660..c3a90f2 100644
--- a/src/quanguru/QuantumToolbox/Hamiltonians.py
+++ b/src/quanguru/QuantumToolbox/Hamiltonians.py
@@ -78,7 +78,7 @@ def qubCavFreeHam(qubFreq: float, cavFreq: float, cavDim: int) -> Tuple[Matrix,
     """
 
     cavHam = cavFreq * sp.kron(identity(2), number(cavDim), format='csc')
-    qubHam = qubFreq * sp.kron(sigmaz(), identity(cavDim), format='csc')
+    qubHam = 0.5 * qubFreq * sp.kron(sigmaz(), identity(cavDim), format='csc')
     return cavHam, qubHam
 
 def RabiHam(qubFreq: float, cavFreq: float, g: float, cavDim: int) -> Matrix:
-- 
2.43.0


From a7f52d577f96f6ef613a0f70035c0dbd11bc4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 05/50] fix: HeatCurrent applies the super-operator to the
 vectorised state and takes a trace

---
 src/quanguru/QuantumToolbox/thermodynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/thermodynamics.py b/src/quanguru/QuantumToolbox/thermodynamics.py
index 6662a13..88b9fc0 100644
--- a/src/quanguru/QuantumToolbox/thermodynamics.py
+++ b/src/quanguru/QuantumToolbox/thermodynamics.py
@@ -28,6 +28,7 @@ r"""
 """
 
 from numpy import exp, real # type: ignore
+from .linearAlgebra import trace
 from .states import mat2Vec, vec2Mat
 from .customTypes import Matrix
 
@@ -129,6 +130,6 @@ def HeatCurrent(Lindbladian: Matrix, Hamiltonian: Matrix, denMat: Matrix) -> flo
     # TODO
     """
 
-    full = mat2Vec(Lindbladian * vec2Mat(denMat))
-    heatCurrent = real((full * Hamiltonian).tr())
+    rhoDot = vec2Mat(Lindbladian @ mat2Vec(denMat))
+    heatCurrent = real(trace(rhoDot @ Hamiltonian))
     return heatCurrent
-- 
2.43.0


From 26631b9963baf2a25a5ef36c3f82fd408eb2dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 06/50] fix: HusimiQ of kets and density matrices

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 93341ad..81db752 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -142,7 +142,7 @@ def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
     if state.shape[0] != state.shape[1]:
         qmat = _qfuncPure(state, amat)
     else:
-        d, v = la.eig(state.full())
+        d, v = la.eigh(state)
         # d[i]   = eigenvalue i
         # v[:,i] = eigenvector i
 
@@ -179,7 +179,7 @@ def _qfuncPure(psi: Matrix, alphaMat: ndarray) -> ndarray:
     """
 
     n = np.prod(psi.shape)
-    psi = psi.T
+    psi = np.ravel(psi)
 
     qmat = abs(polyval(fliplr([psi / np.sqrt(factorial(arange(n)))])[0], conjugate(alphaMat))) ** 2
 
-- 
2.43.0


From a573245539a3a7da6ada34583349fd02683860af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 07/50] fix: removed sub-systems keep their dimension and
 terms, couplings with them are removed at every level

---
 src/quanguru/classes/QSystem.py | 43 +++++++++++----------------------
 src/quanguru/classes/QTerms.py  |  5 ++--
 2 files changed, 17 insertions(+), 31 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 41eebb0..6433ee0 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -461,38 +461,21 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             Raises an error if removeSubSys is called on a single system.
             This method also updates the dimsBefore/After of the remaining sub-systems (and the removed system), deletes
             the existing matrices so that they are re-created with the proper dimensions.
-            When removing a single system, it sets the dimension of the single system to 1, so that all the
-            dimsBefore/After information are updated by the dimensionUpdate method.
-            However, we might still need the removed system, so its dimension is stored (in oldDim) and set back again
-            (into _QuantumSystem__dimension) after its removed.
-            When removing a composite system, it makes _removeSubSysExc to each sub-system of the removed composite
-            system, and these nested calls sets the dimensions of all the single systems below the removed composite to
-            1 so that the dimsBefore/After information are again updated by the dimensionUpdate method.
-            However, the removed composite system might still be needed, and we might not want these dimensions to be 1
-            or these single systems to be removed from the removed composite system.
-            These are avoided by storing&setting the dimensions back to their original values for single systems and
-            adding the removed sub-systems of removed composite systems back in.
+            The removed system (single or composite) might still be needed, so it keeps its dimension, sub-systems, and
+            terms, and only the dimsBefore/After information are updated (by the _updateDimension method) as if its
+            dimension is set to 1.
+            The multi-system terms (of self and of the systems above it) containing the removed system (or any system in
+            it) are also removed.
         """
         checkNotVal(self._isComposite, False,
                     f"{self.name} is not a composite. removeSubSys cannot be called on single systems")
         subSys = self.getByNameOrAlias(subSys)
         if subSys in self.subSys.values():
             _exclude.append(self)
-            if subSys._isComposite: # pylint:disable=protected-access
-                # need to create this for two reasons
-                # 1. because subSys.subSys changes its size due to _removeSubSysExc calls
-                # 2. we add these systems back again after removal
-                qsysList = list(subSys.subSys.values())
-                for qsys in qsysList:
-                    subSys._removeSubSysExc(qsys, _exclude=_exclude)#pylint:disable=protected-access
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                # add the sub-systems of subSys back again
-                subSys.addSubSys(qsysList)
-            else:
-                oldDim = subSys.dimension
-                subSys.dimension = 1
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                setAttr(self, '_QuantumSystem__dimension', oldDim)
+            # shrinks the dimsBefore/After of the remaining systems (also in the upper levels) by the removed dimension,
+            # the removed system keeps its dimension, sub-systems, and terms
+            self._updateDimension(subSys, 1, subSys.dimension)
+            super()._removeSubSysExc(subSys, _exclude=_exclude)
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
@@ -511,9 +494,11 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                         self.superSys._removeSubSysExc(subSys, _exclude=_exclude) #pylint:disable=protected-access
 
         if subSys is not self:
-            termObjs = list(self.terms.values())
-            for ter in termObjs:
-                ter._removeTermIfQSysInList(self, subSys)#pylint:disable=protected-access
+            qSys = self
+            while isinstance(qSys, QuantumSystem):
+                for ter in list(qSys.terms.values()):
+                    ter._removeTermIfQSysInList(qSys, subSys)#pylint:disable=protected-access
+                qSys = qSys.superSys
         self.delMatrices(_exclude=[])
         self._paramUpdated = True
 
diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 6fcc983..379067a 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -116,11 +116,12 @@ class QTerm(paramBoundBase):
 
     def _removeTermIfQSysInList(self, qSys, subSys):
         r"""
-        removes self (the term) from the terms of given qSys if a particular subSys is in qSystem list of self.
+        removes self (the term) from the terms of given qSys if a particular subSys (or any system in it) is in qSystem
+        list of self.
         This is an internal method used in removeSubSys of quantum systems.
         """
         if isinstance(self.qSystem, (list, tuple)):
-            if subSys in self.qSystem:
+            if any(subSys is qs or subSys._hasInSubs(qs) for qs in self.qSystem): # pylint: disable=protected-access
                 qSys.removeTerm(self)
 
     @staticmethod
-- 
2.43.0


From c2cf53a1989efab1104c73bb20f151d6dba47af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 08/50] fix: adding a sub-system to a composite that is itself
 a sub-system updates the tensor positions of the whole tree

---
 src/quanguru/classes/QSystem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 6433ee0..1fc092b 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -374,9 +374,15 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         internal method used to update relevant information (such as dimension before/after) for the existing and newly
         added sub-systems. This is purely for internal use.
         """
+        oldDim = self.dimension
         for subS in self.subSys.values():
             subS._dimsAfter *= subSys.dimension
             subSys._dimsBefore *= subS.dimension
+        # self might already be in another composite system
+        subSys._dimsBefore *= self._dimsBefore
+        subSys._dimsAfter *= self._dimsAfter
+        if isinstance(self.superSys, QuantumSystem):
+            self.superSys._updateDimension(self, oldDim*subSys.dimension, oldDim)
         return subSys
 
     @addDecorator
-- 
2.43.0


From 03011db0cc339401f2639806a02e6ce5de384c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 09/50] fix: changing the ratio of a protocol step invalidates
 its propagator

---
 src/quanguru/classes/QPro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f3379ab..f7fb36a 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,7 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator
 from .baseClasses import updateBase
-from .QSimBase import _parameter
+from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
 
@@ -158,7 +158,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @ratio.setter
     def ratio(self, val):
-        self._genericProtocol__ratio = val # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__ratio', val)
 
     @property
     def system(self):
-- 
2.43.0


From f0fd0e674b4e406877b5876f4d67c56c908d609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 10/50] fix: changing the implementation of a gate invalidates
 its propagator

---
 src/quanguru/classes/QPro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f7fb36a..6621495 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -451,7 +451,7 @@ class Gate(genericProtocol):
 
     @implementation.setter
     def implementation(self, typeStr):
-        self._Gate__implementation = typeStr # pylint: disable=assigning-non-slot
+        setAttr(self, '_Gate__implementation', typeStr) # pylint: disable=assigning-non-slot
 
 class Update(updateBase):
     label = 'Update'
-- 
2.43.0


From eff47771822b043cc4b89b36118e1089ffadd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 11/50] fix: a protocol labelled fixed creates its propagator
 once instead of returning None

---
 src/quanguru/classes/QPro.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 6621495..2d869ac 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -198,10 +198,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        if self._paramUpdated:
-            if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
+        if (self._paramBoundBase__matrix is None) or (self._paramUpdated and not self.fixed): # pylint: disable=no-member
             self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -227,14 +224,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
-        runCreate = False
-        if self._paramUpdated:
-            if not self.fixed:
-                runCreate = True
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            runCreate = True
-
-        if runCreate:
+        if (self._paramBoundBase__matrix is None) or (self._paramUpdated and not self.fixed): # pylint: disable=no-member
             lc = 1
             td = False
             if len(self.timeDependency.sweeps) > 0:
-- 
2.43.0


From dfc7c1ecdeb21625cb0d308735c90ba337012755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 12/50] fix: the adjoint of a step follows the current
 propagator of the step

---
 src/quanguru/classes/baseClasses.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/quanguru/classes/baseClasses.py b/src/quanguru/classes/baseClasses.py
index a0e8a68..faa1836 100644
--- a/src/quanguru/classes/baseClasses.py
+++ b/src/quanguru/classes/baseClasses.py
@@ -153,9 +153,7 @@ class paramBoundBase(qBase):
 
     @property
     def _hc(self):
-        if ((self._paramBoundBase__matrixHc is None)
-            or (self._paramBoundBase__matrixHc.shape != self._paramBoundBase__matrix.shape)): # pylint: disable=assigning-non-slot
-            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
+        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrixHc # pylint: disable=assigning-non-slot
 
     @property
-- 
2.43.0


From 0d903a43d489dc8929385fb2c9f74c1a5569e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 13/50] fix: changing the phase of a rotation invalidates its
 propagator

---
 src/quanguru/classes/QGates.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 921372c..2a1a6a2 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -35,13 +35,13 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     _externalInstances: int = 0
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
-    __slots__ = ['__angle', '__rotationAxis', 'phase', '_rotationOp']
+    __slots__ = ['__angle', '__rotationAxis', '__phase', '_rotationOp']
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self.__angle = None
         self.__rotationAxis = None
         self._rotationOp = None
-        self.phase = 1
+        self.__phase = 1
         #self._createUnitary = self._rotMat
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
@@ -53,6 +53,14 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     def angle(self, val):
         setAttr(self, '_SpinRotation__angle', val)
 
+    @property
+    def phase(self):
+        return self._SpinRotation__phase
+
+    @phase.setter
+    def phase(self, val):
+        setAttr(self, '_SpinRotation__phase', val)
+
     @property
     def rotationAxis(self):
         return self._SpinRotation__rotationAxis # pylint: disable=no-member
-- 
2.43.0


From 02243bbc94d42b279fdd1b2900ef24e8610246c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 14/50] fix: steps notify every protocol they are used in, and
 are not marked up to date with the parameters of an undone update

---
 src/quanguru/classes/QPro.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 2d869ac..bec730b 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -265,19 +265,6 @@ class qProtocol(genericProtocol):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
-    def _paramUpdatedToFalse(self):
-        super()._paramUpdatedToFalse()
-        for step in self.subSys.values():
-            step._paramUpdatedToFalse()
-
-    @genericProtocol._paramUpdated.getter
-    def _paramUpdated(self):# pylint: disable=invalid-overridden-method
-        for subS in self.subSys.values():
-            if subS._paramUpdated:
-                self._paramBoundBase__paramUpdated = True # pylint: disable=assigning-non-slot
-                break
-        return self._paramBoundBase__paramUpdated # pylint: disable=no-member
-
     @property
     def steps(self):
         return self._qBase__subSys # pylint: disable=no-member
@@ -294,6 +281,9 @@ class qProtocol(genericProtocol):
         Copy step ensures the exponentiation
         '''
         for step in args:
+            # a step notifies every protocol it is used in
+            original = step.superSys if isinstance(step, copyStep) else step
+            original._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
             if isinstance(step, copyStep):
                 super().addSubSys(step)
             elif step._genericProtocol__inProtocol:
@@ -314,7 +304,9 @@ class qProtocol(genericProtocol):
                 vals.append(st._paramUpdated)
         else:
             for ind2, st in enumerate(subSysList[ind:]):
-                st._paramUpdated = vals[ind2]
+                if isinstance(st, genericProtocol):
+                    # not through the property, which would also change the other protocols using this step
+                    st._paramBoundBase__paramUpdated = vals[ind2]
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
@@ -344,9 +336,6 @@ class copyStep(qBase):
         self.hc = False
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
-    def _paramUpdatedToFalse(self):
-        pass
-
     @property
     def _paramUpdated(self):
         return self.superSys._paramUpdated
-- 
2.43.0


From 7b9fb85423acf8d2f1c2594677084673b28bc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 15/50] fix: an update of several systems gives each its own
 value back, repeated updates are undone in reverse

---
 src/quanguru/classes/QPro.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index bec730b..98ed0a8 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -215,7 +215,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         for update in self._genericProtocol__updates:
             update.setup()
         self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        for update in self._genericProtocol__updates:
+        for update in reversed(self._genericProtocol__updates):
             update.setback()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
@@ -441,7 +441,7 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', 'setup', 'setback']
+    __slots__ = ['value', '__memoryValue', '__memory', 'setup', 'setback']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
@@ -449,6 +449,8 @@ class Update(updateBase):
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
+        # values of the other systems
+        self.__memory = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -476,7 +478,9 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
+        systems = list(self.subSys.values())
+        self.memoryValue = getattr(systems[0], self.key)
+        self.__memory = [(sys, getattr(sys, self.key)) for sys in systems[1:] if hasattr(sys, self.key)]
         if self._updateBase__function is None: # pylint: disable=no-member
             super()._runUpdate(self.value)
         else:
@@ -485,3 +489,5 @@ class Update(updateBase):
     def _setback(self):
         if self.value != self.memoryValue:
             super()._runUpdate(self.memoryValue)
+        for sys, value in self.__memory:
+            setattr(sys, self.key, value)
-- 
2.43.0


From e6bb30a561f4c3108c52c45357b302c93d4a33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 16/50] fix: adding a system to a gate invalidates its
 propagator

---
 src/quanguru/classes/QPro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 98ed0a8..5cd6fdf 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -415,6 +415,7 @@ class Gate(genericProtocol):
         # FIXME this becomes 'fixed' unless the dimension is changed.
         #if self.implementation.lower() != 'instant':
         newSys._paramBoundBase__paramBound[self.name] = self
+        self._paramUpdated = True
         return newSys
 
     @system.setter
-- 
2.43.0


From d5e9a0638bf8c59904647b4a9d6846eee125f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 17/50] fix: the pre-post super-operator of one operator is
 that of A rho A^dagger, as documented

---
 src/quanguru/QuantumToolbox/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 1d14895..3a8a663 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -370,7 +370,7 @@ def _prepostSO(operatorA: Matrix, operatorB: Optional[Matrix] = None) -> Matrix:
 
     """
     if operatorB is None:
-        operatorB = operatorA
+        operatorB = hc(operatorA)
     prepost = sp.kron(operatorB.transpose(), operatorA, format='csc')
     return prepost if sp.issparse(operatorA) else prepost.A
 
-- 
2.43.0


From ccee030e8491e3d4945dca5082efa66a78dcb9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 18/50] fix: simulation parameters that are not set keep being
 notified, and a set one no longer follows

---
 src/quanguru/classes/QSimBase.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 696a0ad..93ebe67 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,17 +49,16 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances).
+    The value is always stored, so the parameter no longer follows the one it was bound to (even if they are equal at
+    the moment), and _paramUpdated is changed, if the new value is different than the old/existing. In any case, it
+    breaks existing timeBase bounds (bound between :class:`~Simulation` instances), but the parameters that are not set
+    still follow the other object, so its changes still need to be notified.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    if obj._timeBase__bound is not None:
-        obj._timeBase__bound._paramBoundBase__paramBound.pop(obj.name, None)
-        obj._timeBase__bound = None
-
+    obj._timeBase__bound = None
+    getattr(obj, attrStr).value = val
     if val != oldVal:
-        getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
 
 class _parameter: # pylint: disable=too-few-public-methods
-- 
2.43.0


From 3fe9574dae33b525a349982e2fcb4e81ad8438e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 19/50] fix: a given step count is the number of steps, and
 determines the step size when the total time is set after it

---
 src/quanguru/classes/QSimBase.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 93ebe67..786246a 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -348,6 +348,8 @@ class timeBase(stateBase):
         setAttrParam(self, '_timeBase__totalTime', fTime)
         if self.stepSize is not None:
             self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+        elif self._timeBase__stepCount.value is not None:
+            self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=E0237
 
     @property
     def stepCount(self):
@@ -365,7 +367,10 @@ class timeBase(stateBase):
                 self._timeBase__totalTime.value = self._timeBase__stepCount.value * self.stepSize # pylint: disable=E0237
 
         try:
-            self._timeBase__stepCount.value = int((self.totalTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+            num = self._timeBase__stepCount.value
+            # a given step count, whose stepSize (or totalTime) is calculated from it, is not re-calculated
+            if num is None or not (self.stepSize == self.totalTime/num or self.totalTime == num*self.stepSize):
+                self._timeBase__stepCount.value = int((self.totalTime//self.stepSize) + 1) # pylint: disable=E0237
         except:  # noqa: E722
             raise ValueError('?') # pylint: disable=raise-missing-from
         return self._timeBase__stepCount.value
-- 
2.43.0


From 3854710b733901fc863e663aed492db16560258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 20/50] fix: a simulation starts every evolution at time zero

---
 src/quanguru/classes/modularSweep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 6cc52d0..9dc29bf 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -116,6 +116,7 @@ def timeDependent(qSim):
 # These are the specific solution method, user should define their own timeEvol function to use other solution methods
 # This flexibility should be reflected into protocol object
 def timeEvolDefault(qSim, td):
+    qSim._Simulation__index = -1 # pylint: disable=protected-access
     for protocol in qSim.subSys.keys():
         protocol.sampleStates = []
     if callable(qSim.evolFunc):
-- 
2.43.0


From 13367536f662bacb9f4e30f3a3a444b184ac7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 21/50] fix: removing sweeps of a system failed when another
 sweep did not contain it

---
 src/quanguru/classes/QSweep.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8c1fcd6..69fb771 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -256,14 +256,17 @@ class Sweep(qBase):
         Else, it calls the :meth:`removeSubSys <quanguru.classes.base.qBase.removeSubSys>` on every ``_sweep`` in its
         ``subSys`` dictionary (since ``systems`` are stored in ``subSys`` dictionary of ``_sweep`` objects).
         """
+        sys = self.getByNameOrAlias(sys)
         if isinstance(sys, _sweep):
-            super()._removeSubSysExc(sys, _exclude=[])
+            if sys.name in self.subSys:
+                super()._removeSubSysExc(sys, _exclude=[])
         else:
             sweeps = list(self.subSys.values())
             for sweep in sweeps:
-                sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
-                if len(sweep.subSys) == 0:
-                    super()._removeSubSysExc(sweep, _exclude=[])
+                if sys.name in sweep.subSys:
+                    sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
+                    if len(sweep.subSys) == 0:
+                        super()._removeSubSysExc(sweep, _exclude=[])
 
     def createSweep(self, system=None, sweepKey=None, **kwargs):
         r"""
-- 
2.43.0


From 59e624f032a3f856d4658527ec0be1d9141223aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 22/50] fix: a simulation repeated its runs for sweeps that had
 been removed

---
 src/quanguru/classes/QSweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 69fb771..bf71624 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -318,8 +318,9 @@ class Sweep(qBase):
         attributes/properties. The reason for this a bit argued in :meth:`indMultip`, but it is basically to ensure that
         any changes to ``sweepList/s`` or ``combinatorial/s`` are accurately used/reflected (especially on re-runs).
         """
+        self._Sweep__inds = [] # pylint: disable=assigning-non-slot
+        self._Sweep__indMultip = 1 # pylint: disable=assigning-non-slot
         if len(self.subSys) > 0:
-            self._Sweep__inds = [] # pylint: disable=assigning-non-slot
             for indx, sweep in enumerate(self.subSys.values()):
                 if ((sweep.combinatorial is True) or (indx == 0)):
                     self._Sweep__inds.insert(0, len(sweep.sweepList))
-- 
2.43.0


From bcdd2c70a4b09a95140cea3d6a1f97a4b8abb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 23/50] fix: a combinatorial sweep could not be the first or
 only one

---
 src/quanguru/classes/QSweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index bf71624..00a9beb 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -335,8 +335,8 @@ class Sweep(qBase):
         ``subSys`` one after the other. Also, for nested Sweeps, the indList should be a properly nested list.
         """
         indx = 0
-        for sweep in self.sweeps.values():
-            if sweep.combinatorial is True:
+        for pos, sweep in enumerate(self.sweeps.values()):
+            if sweep.combinatorial is True and pos > 0:
                 indx += 1
             sweep.runSweep(indList[indx])
 
-- 
2.43.0


From 25bc522bfcaf9f87ce2a615335bdfad93a79dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 24/50] fix: values calculated before or after the evolutions
 of a parallel run were lost

---
 src/quanguru/classes/QRes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 5f7b201..79b4523 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -268,9 +268,15 @@ class qResults(qResBase):
         (see :meth:`~_copyAllResBlank`), this method re-writes the results into corresponding :class:`~qResults` objects
         and re-shapes them into correct sweep and time trace structure. Calls other methods of the class for these.
         """
+        # the processes start from what is already calculated, so only the rest of their lists is new
+        known = {name: {key: len(val) for key, val in qRes._qResBase__calculated.items()}
+                 for name, qRes in self.allResults.items()}
         for res in results:
             for keyUni, valUni in res.items():
                 self._organise(keyUni, valUni)
+                for key, val in valUni._qResBlank__calculated.items():
+                    new = val[known[keyUni].get(key, 0):]
+                    qResults._allResults[keyUni]._qResBase__calculated[key].extend(new) # pylint: disable=no-member
         self._finaliseAll(inds)
 
     @classmethod
-- 
2.43.0


From bb659f1b2cd6e93caa4b77bc3e5b0afc9056223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 25/50] fix: the dissipators of a protocol were counted twice
 in its propagator

unitary() passed the collapse operators of the protocol to getUnitary(), which
adds them itself, so an open system decayed with twice the given rates. A
repeated step is also given the dissipators of the protocol it is repeated in.
---
 src/quanguru/classes/QPro.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 5cd6fdf..46a01b7 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -192,9 +192,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self.simulation._bound(supSys.simulation) # pylint: disable=protected-access
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
-    def unitary(self):
-        collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-        decayRates = None if not self._isOpen else list(self._dissipator.values())
+    def unitary(self, collapseOps = None, decayRates = None):
+        # getUnitary includes the dissipators of this protocol
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
@@ -348,8 +347,8 @@ class copyStep(qBase):
     def _paramUpdated(self, boolean):
         pass
 
-    def getUnitary(self, collapseOps = None, decayRates = None): #pylint:disable=unused-argument
-        self.superSys.unitary()
+    def getUnitary(self, collapseOps = None, decayRates = None):
+        self.superSys.unitary(collapseOps, decayRates)
         return self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix #pylint:disable=protected-access
 
     def unitary(self): #pylint:disable=unused-argument
-- 
2.43.0


From b4de3507bf882b50156576d7122a5b3ff4cc07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 26/50] fix: rates, temperatures and operators of a dissipator
 were fixed when it was attached

A dissipator given its rate after its system had a zero rate, later changes of the
rate, temperature or jump operator did not reach the propagator (setting the
operator again, or before the system, raised an error), and one attached after a
propagator was read was ignored.
---
 src/quanguru/classes/QPro.py        |  8 ++++----
 src/quanguru/classes/environment.py | 26 +++++++++++---------------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 46a01b7..821a903 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -203,11 +203,11 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     def getUnitary(self, collapseOps = None, decayRates = None):
         if collapseOps is None:
-            collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = None if not self._isOpen else list(self._dissipator.values())
+            collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator]
+            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator]
         else:
-            collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = decayRates + list(self._dissipator.values())
+            collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator]
+            decayRates = decayRates + [ds.jRate for ds in self._dissipator]
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 9e82b59..895cea7 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -64,6 +64,7 @@ class dissipatorObj(_genericOpen):
         self.__rate = 0
         self.__bath = thermalBath()
         super().__init__(**kwargs)
+        self._dissipatorObj__bath._paramBoundBase__paramBound[self.name] = self
 
     @property
     def temperature(self):
@@ -82,8 +83,10 @@ class dissipatorObj(_genericOpen):
         self.addToProtocol(supSys._freeEvol)
 
     def addToProtocol(self, protocol):
-        protocol._genericProtocol__dissipator[self] = self.jRate #pylint:disable=protected-access
+        # only the membership is stored, protocol asks for the rate and the operator when it needs them
+        protocol._genericProtocol__dissipator[self] = None #pylint:disable=protected-access
         self._paramBoundBase__paramBound[protocol.name] = protocol # pylint: disable=no-member
+        protocol.delMatrices(_exclude=[])
 
     @property
     def jRate(self):
@@ -97,22 +100,14 @@ class dissipatorObj(_genericOpen):
     def jOper(self):
         return self._dissipatorObj__operator
 
-    @property
-    def jOperMatrix(self):
-        return self._paramBoundBase__matrix # pylint:disable=no-member
-
-    @jOperMatrix.setter
-    def jOperMatrix(self, jOpMat):
-        if ((jOpMat is None) or self._paramUpdated):
-            setAttr(self, '_paramBoundBase__matrix',
-                    compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore)) # pylint:disable=no-member
-            self._paramBoundBase__paramUpdated = False # pylint:disable=assigning-non-slot
-
     @jOper.setter
     def jOper(self, jop):
-        setAttr(self, '_dissipatorObj__operator', jop)
-        if self._paramUpdated:
-            self.jOperMatrix = None
+        self._dissipatorObj__operator = jop # pylint:disable=assigning-non-slot
+        self._paramUpdated = True
+
+    @property
+    def jOperMatrix(self):
+        return compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore) # pylint:disable=no-member
 
 class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
     r"""
@@ -161,6 +156,7 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
         _genericOpen.subSys.fset(self, subS)
         subS._dissipatorObj__bath = self #pylint:disable=protected-access
         self._paramBoundBase__paramBound[subS.name] = subS # pylint: disable=no-member
+        subS._paramUpdated = True
 
     @dissipator.setter
     def dissipator(self, subS):
-- 
2.43.0


From aeebadaac1d7912a8af162f9480552f2cf3317be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 27/50] fix: fixed steps of an open protocol were prepared
 without its dissipators

---
 src/quanguru/classes/QPro.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 821a903..fd26662 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -172,6 +172,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.fixed is True:
             self.getUnitary(collapseOps, decayRates)
 
+        collapseOps, decayRates = self._addDissipators(collapseOps, decayRates)
         for step in self.subSys.values():
             if isinstance(step, genericProtocol):
                 step.prepare(collapseOps, decayRates)
@@ -201,13 +202,18 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
-    def getUnitary(self, collapseOps = None, decayRates = None):
+    def _addDissipators(self, collapseOps = None, decayRates = None):
+        # extends the given collapse operators and rates (of the outer protocols) by the dissipators of this protocol
+        isOpen = self._isOpen
         if collapseOps is None:
-            collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator]
-            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator]
-        else:
-            collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator]
-            decayRates = decayRates + [ds.jRate for ds in self._dissipator]
+            if not isOpen:
+                return None, None
+            collapseOps, decayRates = [], []
+        return (collapseOps + [ds.jOperMatrix for ds in self._dissipator],
+                decayRates + [ds.jRate for ds in self._dissipator])
+
+    def getUnitary(self, collapseOps = None, decayRates = None):
+        collapseOps, decayRates = self._addDissipators(collapseOps, decayRates)
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-- 
2.43.0


From 991198c270c15888bce3866df9983efc9e53d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 28/50] fix: changes of the dissipators of a protocol did not
 reach its steps

---
 src/quanguru/classes/QPro.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index fd26662..3159dc5 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -318,6 +318,10 @@ class qProtocol(genericProtocol):
         unitary = self._identity(openSys=self._isOpen) # pylint: disable=no-member
         for step in self.steps.values():
             vals = self._puValues(step, [])
+            if collapseOps:
+                # steps are not notified when the dissipators of the protocols they are in change
+                original = step.superSys if isinstance(step, copyStep) else step
+                original._paramBoundBase__paramUpdated = True # pylint: disable=protected-access
             unitary = step.getUnitary(collapseOps, decayRates) @ unitary
             self._puValues(step, vals)
         return unitary
-- 
2.43.0


From 4bd6108440967c26eec4492afc6fc2a960e37356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 29/50] fix: open-system simulations squared an initial state
 given as a density matrix

---
 src/quanguru/classes/modularSweep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 9dc29bf..fb698ab 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -73,7 +73,10 @@ def _runSweepAndPrep(qSim, ind):
 
     for protocol in qSim.subSys.keys():
         if callable(qSim.evolFunc):
-            protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)# pylint: disable=protected-access,line-too-long
+            state = protocol.initialState
+            if protocol._isOpen and (state.shape[0] != state.shape[1]): # pylint: disable=protected-access
+                state = densityMatrix(state)
+            protocol.currentState = state
 
     qSim.qRes._resetLast() # pylint: disable=protected-access
     qSim._computeBase__calculate("pre")
-- 
2.43.0


From 68cad3cec7ca54a715914ede7d1b609fa44fe5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 30/50] fix: copies of quantum systems lost terms, couplings
 and initial states

Every term after the first replaced the first one, couplings of systems at
different depths of a nested composite could not be copied, and the initial
state was set before the dimension it needs.
---
 src/quanguru/classes/QSystem.py | 40 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 1fc092b..a03e7eb 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -703,36 +703,36 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
     def _freeMatrix(self, qMat):
         self._firstTerm._freeMatrix = qMat # pylint: disable=protected-access
 
+    def _pairWithCopy(self, copied):
+        r"""
+        Used internally by the copy method to find the system in the copy that corresponds to ``self`` or to any of its
+        (nested) sub-systems.
+        """
+        pairs = {self.name.name: copied}
+        for qsys, cqsys in zip(self.subSys.values(), copied.subSys.values()):
+            pairs.update(qsys._pairWithCopy(cqsys))
+        return pairs
+
     def copy(self, **kwargs):
         newSys = super().copy()
+        newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
+        if self._QuantumSystem__compSys is False:
+            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
         for qsys in self.subSys.values():
             cqsys = qsys.copy()
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
-        subSysList = list(newSys.subSys.values())
+        pairs = self._pairWithCopy(newSys)
+        newSys.resetTerms()
         for ter in self.terms.values():
-            if isinstance(ter.qSystem, QuantumSystem):
-                qSystemNames = newSys
-            else:
-                qSystemNames = []
-                for qsys in ter.qSystem:
-                    qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
-
-            if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
-                newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
-                                  operator=ter.operator,
-                                  frequency=ter.frequency,
-                                  order=ter.order)
+            if isinstance(ter.qSystem, (list, tuple)):
+                qSystem = [pairs[qsys.name.name] for qsys in ter.qSystem]
             else:
-                newSys._firstTerm.qSystem=qSystemNames#pylint:disable=no-member,protected-access
-                newSys._firstTerm.operator=ter.operator#pylint:disable=no-member,protected-access
-                newSys._firstTerm.frequency=ter.frequency#pylint:disable=no-member,protected-access
-                newSys._firstTerm.order=ter.order#pylint:disable=no-member,protected-access
+                qSystem = pairs[ter.qSystem.name.name]
+            newSys.addTerms(QTerm._createTerm(superSys=newSys, qSystem=qSystem, operator=ter.operator, order=ter.order,#pylint:disable=protected-access
+                                              frequency=ter.frequency, timeDependency=ter.timeDependency))
         if self.simulation._stateBase__initialStateInput._value is not None:
             newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
-        if not self._isComposite:
-            newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
-            newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
         newSys._named__setKwargs(**kwargs) #pylint:disable=no-member
         return newSys
 
-- 
2.43.0


From c347027a29dd6696de85ac58c15b19c2ecf5ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 31/50] fix: couplings made of several terms kept a stale
 Hamiltonian when a dimension changed

---
 src/quanguru/classes/QTerms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 379067a..36598f0 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -19,6 +19,7 @@
 
 """
 
+from .base import addDecorator
 from .baseClasses import paramBoundBase
 from .QSimBase import setAttr
 from .exceptions import checkCorType, checkVal, checkNotVal
@@ -114,6 +115,16 @@ class QTerm(paramBoundBase):
             self._paramBoundBase__paramBound[qSys.name] = qSys # pylint: disable=protected-access,no-member
         setAttr(self, '_QTerm__qSys', qSys)
 
+    @addDecorator
+    def addSubSys(self, subSys, **kwargs):
+        r"""
+        Extends the addSubSys method so that the changes of the given term reach this one, which contains it.
+        """
+        subSys = super().addSubSys(subSys, **kwargs)
+        if isinstance(subSys, QTerm):
+            subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
+        return subSys
+
     def _removeTermIfQSysInList(self, qSys, subSys):
         r"""
         removes self (the term) from the terms of given qSys if a particular subSys (or any system in it) is in qSystem
-- 
2.43.0


From 6cf5bbb20a3aacf7d4f3ec298808ad19c4a00b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 32/50] fix: eigenvector distribution of the symplectic class
 was not normalised

---
 src/quanguru/QuantumToolbox/rmtDistributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/rmtDistributions.py b/src/quanguru/QuantumToolbox/rmtDistributions.py
index be93ed8..5d89b4e 100644
--- a/src/quanguru/QuantumToolbox/rmtDistributions.py
+++ b/src/quanguru/QuantumToolbox/rmtDistributions.py
@@ -67,7 +67,7 @@ def EigenVectorDist(x: float, dim: int, beta: int = 1) -> float:
         dist = (1 - x)**(dim - 2)
     elif beta == 4:
         coef = (dim - 1)*(dim - 2)
-        dist = x*((1-x)**(dim - 1))
+        dist = x*((1-x)**(dim - 3))
     val = coef*dist
     if val > 10**30:
         val = 10**30
-- 
2.43.0


From 6f4443083e65012fda7ba8505537487d63da09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 33/50] fix: saveCSV writes every kind of number and rows of
 one value

Complex numbers and numpy integers or single precision numbers were silently left out: the file was empty. Rows that
were unwrapped because they have a single value made it fail or write the text of the lists.
---
 src/quanguru/extensions/saveReadCSV.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c5f2a64..d4e2d21 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -31,6 +31,7 @@ r"""
 
 import csv
 from datetime import datetime
+from numbers import Number
 import numpy as np
 from ._helpers import makeDir
 
@@ -62,11 +63,11 @@ def saveCSV(data, path=None, fileName=None):
 
     with open(path + '/' + str(fileName) + '.txt', 'w') as csvFile: #pylint:disable=W1514
         csvWriter = csv.writer(csvFile, delimiter=',', quotechar='"', quoting=csv.QUOTE_MINIMAL)
-        if isinstance(data[0], (list, np.ndarray)):
-            for ind in range(len(data)):
-                csvWriter.writerow([data[ind][ind2] for ind2 in range(len(data[ind]))])
-        elif isinstance(data[0], (float, int, np.complex128)):
-            csvWriter.writerow([data[ind2] for ind2 in range(len(data))])
+        if any(isinstance(row, (list, np.ndarray)) for row in data):
+            for row in data:
+                csvWriter.writerow(row if isinstance(row, (list, np.ndarray)) else [row])
+        elif isinstance(data[0], Number):
+            csvWriter.writerow(data)
 
     return path
 
-- 
2.43.0


From 548720cea865016b3d911c756099fb082f5b43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 34/50] fix: readCSV reads complex numbers

np.complex was removed from numpy, so that reading them raised an AttributeError.
---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index d4e2d21..bb10111 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -95,7 +95,7 @@ def readCSV(path, datatype=float, realVal=True):
             if datatype != np.complex128:
                 data.append(np.array(list(row), dtype=datatype))
             else:
-                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex)
+                li = np.array(list(row), dtype=datatype)
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
-- 
2.43.0


From f5628be6820d4bd3b0d4a42e06377ff6153ec98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 35/50] fix: save results that are single values or lists of
 values

saveQResCSV failed with a TypeError for the results of a simulation without sweeps, for averages and for complex or
numpy integer results.
---
 src/quanguru/extensions/saveReadCSV.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index bb10111..1f6378f 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -100,14 +100,15 @@ def readCSV(path, datatype=float, realVal=True):
     return data if len(data) > 1 else data[0]
 
 def _recursiveSaveList(data, path=None, fileName=None):
-    if isinstance(data[0], (list, np.ndarray)):
-        if isinstance(data[0][0], (list, np.ndarray)):
+    if isinstance(data, Number):
+        saveCSV([data], path=path, fileName=fileName)
+    elif isinstance(data, (list, np.ndarray)):
+        values = [val for row in data for val in (row if isinstance(row, (list, np.ndarray)) else [row])]
+        if any(isinstance(val, (list, np.ndarray)) for val in values):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
                 _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
-        elif isinstance(data[0][0], (float, int, np.complex128)):
+        elif values and isinstance(values[0], Number):
             saveCSV(data, path=path, fileName=fileName)
-    elif isinstance(data[0], (float, int, np.complex128)):
-        saveCSV(data[0], path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-- 
2.43.0


From a9e4740b147f76c29a10960791797f854df2f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 36/50] fix: results of three or more sweeps do not overwrite
 each other's files

With the indices joined without a separator, the files of [1][11] and [11][1] were the same.
---
 src/quanguru/extensions/saveReadCSV.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 1f6378f..ba3076d 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -99,14 +99,14 @@ def readCSV(path, datatype=float, realVal=True):
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
-def _recursiveSaveList(data, path=None, fileName=None):
+def _recursiveSaveList(data, path=None, fileName=None, separator=''):
     if isinstance(data, Number):
         saveCSV([data], path=path, fileName=fileName)
     elif isinstance(data, (list, np.ndarray)):
         values = [val for row in data for val in (row if isinstance(row, (list, np.ndarray)) else [row])]
         if any(isinstance(val, (list, np.ndarray)) for val in values):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
-                _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
+                _recursiveSaveList(data[ind], path=path, fileName=fileName+separator+str(ind), separator='_')
         elif values and isinstance(values[0], Number):
             saveCSV(data, path=path, fileName=fileName)
 
-- 
2.43.0


From f6319cb6596c276b735104d48a85fb8d99a67f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 37/50] fix: the first term and the Hamiltonian follow removed
 and reset terms

After the first term was removed, or the terms were reset, frequency, operator and order of the system still referred to
the removed term and setting them had no effect; after resetTerms the cached Hamiltonian was returned.
---
 src/quanguru/classes/QSystem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index a03e7eb..b56890d 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -611,6 +611,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         if termObj in self.terms.values():
             _exclude.append(self)
             self.terms.pop(termObj.name)
+            if termObj is self._QuantumSystem__firstTerm:
+                self._QuantumSystem__firstTerm = next(iter(self.terms.values()), None) #pylint:disable=assigning-non-slot
             _exclude.append(termObj)
         else:
             if self not in _exclude:
@@ -634,7 +636,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         You can also give a list of terms (or their named/aliases) to be removed.
         This method is a wrapper around the actual remove method the ``_removeTermExc`` so that it is called with an
         empty _exclude list, which is used to avoid infinite recursions when finding the term inside a nested system.
-        Note that it will raise an error, if the given term is the first-term if the system.
+        If the given term is the first-term of the system, the next one becomes the first-term.
         """
         termObj = self.getByNameOrAlias(termObj)
         self._removeTermExc(termObj=termObj, _exclude=[])
@@ -644,6 +646,9 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._QuantumSystem__firstTerm = None # pylint:disable=assigning-non-slot
+        self.delMatrices(_exclude=[])
+        self._paramUpdated = True
 
     @terms.setter
     def terms(self, trm):
-- 
2.43.0


From e3ca8b642d44acae08259ebb8866f0b8fecf39f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 38/50] fix: simulations with own time parameters keep
 following the others

---
 src/quanguru/classes/QSimBase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 786246a..4777c22 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -50,13 +50,11 @@ def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
     The value is always stored, so the parameter no longer follows the one it was bound to (even if they are equal at
-    the moment), and _paramUpdated is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances), but the parameters that are not set
-    still follow the other object, so its changes still need to be notified.
+    the moment), and _paramUpdated is changed, if the new value is different than the old/existing. The parameters that
+    are not set (and the current time) still follow the object that this object is bound to.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    obj._timeBase__bound = None
     getattr(obj, attrStr).value = val
     if val != oldVal:
         setattr(obj, '_paramUpdated', True)
-- 
2.43.0


From 85b02c752dcbecb5027b8f57593e0140ebdc3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 39/50] fix: calculated step counts are not mistaken for given
 ones

---
 src/quanguru/classes/QSimBase.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 4777c22..3ebc615 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -345,7 +345,7 @@ class timeBase(stateBase):
             self._timeBase__stepSize._value = self._timeBase__stepSize._bound._value # pylint: disable=protected-access
         setAttrParam(self, '_timeBase__totalTime', fTime)
         if self.stepSize is not None:
-            self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+            self._timeBase__stepCount.value = None # calculated in the getter # pylint: disable=assigning-non-slot
         elif self._timeBase__stepCount.value is not None:
             self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=E0237
 
@@ -368,10 +368,10 @@ class timeBase(stateBase):
             num = self._timeBase__stepCount.value
             # a given step count, whose stepSize (or totalTime) is calculated from it, is not re-calculated
             if num is None or not (self.stepSize == self.totalTime/num or self.totalTime == num*self.stepSize):
-                self._timeBase__stepCount.value = int((self.totalTime//self.stepSize) + 1) # pylint: disable=E0237
+                num = int((self.totalTime//self.stepSize) + 1)
         except:  # noqa: E722
             raise ValueError('?') # pylint: disable=raise-missing-from
-        return self._timeBase__stepCount.value
+        return num
 
     @stepCount.setter
     def stepCount(self, num):
@@ -400,7 +400,7 @@ class timeBase(stateBase):
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
         setAttrParam(self, '_timeBase__stepSize', stepsize)
         if self.totalTime is not None:
-            self._timeBase__stepCount.value = int((self.totalTime//stepsize) + 1) # pylint: disable=assigning-non-slot
+            self._timeBase__stepCount.value = None # calculated in the getter # pylint: disable=assigning-non-slot
 
     @property
     def samples(self):
@@ -479,11 +479,8 @@ class timeBase(stateBase):
             keys = ['_timeBase__stepSize', '_timeBase__totalTime', '_timeBase__stepCount']
             keysProp = ['stepSize', 'totalTime', 'stepCount']
             bounding = True
-            for ind, key in enumerate(keys):
-                if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    if getattr(other, key)._value is not None: # pylint: disable=protected-access
-                        setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
-
+            for key in keys:
+                if getattr(self, key)._bound is False and getattr(self, key)._value is not None: # pylint: disable=protected-access
                     if bounding:
                         for i, k in enumerate(keys):
                             if ((getattr(self, k)._bound is None) and # pylint: disable=protected-access # noqa: W504
-- 
2.43.0


From f04f3a296b669b12b0535d6e8eed5cc878d9eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:49 +0000
Subject: [PATCH 40/50] fix: pairs of collapse operators without a Hamiltonian

---
 src/quanguru/QuantumToolbox/evolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 3a8a663..88cce28 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -135,7 +135,8 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
         dimensionOfHilbertSpace = Hamiltonian.shape[0]
     else:
         if collapseOperators is not None:
-            dimensionOfHilbertSpace = collapseOperators[0].shape[0]
+            first = collapseOperators[0]
+            dimensionOfHilbertSpace = (first[0] if isinstance(first, tuple) else first).shape[0]
 
     identity = sp.identity(dimensionOfHilbertSpace, format="csc")
     liouvillian = zerosMat(dimensionOfHilbertSpace**2)
@@ -210,7 +211,8 @@ def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,#
         sparse = sp.issparse(Hamiltonian)
     else:
         if collapseOperators is not None:
-            sparse = sp.issparse(collapseOperators[0])
+            first = collapseOperators[0]
+            sparse = sp.issparse(first[0] if isinstance(first, tuple) else first)
 
     if isinstance(collapseOperators, list):
         liouvillian = Liouvillian(Hamiltonian, collapseOperators, decayRates, _double=_double)
-- 
2.43.0


From fa1de3aec9d2633da8dc4609d74c49bd330654a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:52 +0000
Subject: [PATCH 41/50] fix: real and complex collapse operators without a
 Hamiltonian

---
 src/quanguru/QuantumToolbox/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 88cce28..59f399d 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -144,7 +144,7 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
         hamPart1 = _preSO(Hamiltonian, identity)
         hamPart2 = _postSO(Hamiltonian, identity)
         hamPart = -1j * (hamPart1 - hamPart2)
-        liouvillian += hamPart
+        liouvillian = liouvillian + hamPart
 
     if isinstance(collapseOperators, list):
         for idx, collapseOperator in enumerate(collapseOperators):
@@ -158,9 +158,9 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
                 raise ValueError("Dimension mismatch")
 
             if decayRates is None:
-                liouvillian += collapsePart
+                liouvillian = liouvillian + collapsePart
             elif len(decayRates) != 0:
-                liouvillian += decayRates[idx]*collapsePart
+                liouvillian = liouvillian + decayRates[idx]*collapsePart
     return liouvillian
 
 def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,# pylint: disable=dangerous-default-value,unsubscriptable-object # noqa: E501
-- 
2.43.0


From c4c657a6d93ccd3198a037a3f6065fbb25cc0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 42/50] fix: objects that no longer exist are not found and
 free their aliases

---
 src/quanguru/classes/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 48ef44e..ae20e93 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -393,9 +393,10 @@ class named:
         """
         if isinstance(name, named):
             return name
-        obj = checkNotVal(self._allInstaces.get(name), None,
-                          f"No object with the given name/alias {name} is found!")
-        return obj if isinstance(obj, named) else obj()
+        obj = self._allInstaces.get(name)
+        if isinstance(obj, weakref.ReferenceType): # returns None, if the object does not exist any more
+            obj = obj()
+        return checkNotVal(obj, None, f"No object with the given name/alias {name} is found!")
 
     def _incrementInstances(self) -> None:
         r"""
@@ -440,8 +441,11 @@ class named:
     @alias.setter
     @_recurseIfList
     def alias(self, ali: str) -> None:
-        for k, v in self._allInstacesDict.items():
+        for k, v in list(self._allInstacesDict.items()):
             wv = v if not isinstance(v, weakref.ReferenceType) else v()
+            if (wv is None) and (k == ali): # the object does not exist any more
+                self._allInstacesDict.pop(k)
+                continue
             checkNotVal((k == ali) and (wv != self), True,
                          f"Given alias ({ali}) already exist and is assigned to: {k.name}")
         self._named__name.alias = ali
-- 
2.43.0


From a56337302df16dd920116413171c8be03f21fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 43/50] fix: removed legacy terms and couplings no longer
 contribute, added ones do

---
 src/quanguru/classes/QSys.py | 45 +++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index 4ba4f93..c89e9aa 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -497,6 +497,11 @@ class compQSystem(genericQSys):
         remaining sub-systems (such as dimension before/after).
         """
         subSys = self.getByNameOrAlias(subSys)
+        if subSys in self.qCouplings.values():
+            self.qCouplings.pop(subSys.name)
+            subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
+            self._paramUpdated = True
+            return
         couplings = list(self.qCouplings.values())
         for coupling in couplings:
             coupling._removeSubSysExc(subSys, _exclude=_exclude)# pylint: disable=protected-access
@@ -512,8 +517,6 @@ class compQSystem(genericQSys):
             self.qSystems.pop(subSys.name)
             _exclude.append(self)
             super()._removeSubSysExc(subSys, _exclude=_exclude)
-        elif subSys in self.qCouplings.values():
-            self.qCouplings.pop(subSys.name)
 
         if self not in _exclude:
             _exclude.append(self)
@@ -789,7 +792,20 @@ class term(termTimeDep):
         """
         paramBoundBase.superSys.fset(self, supSys) # pylint: disable=no-member
         termCount = len(self.superSys.subSys) if self in self.superSys.subSys.values() else len(self.superSys.subSys)+1 # pylint: disable=no-member,line-too-long # noqa: E501
-        self.alias = [na+"Term"+str(termCount) for na in self.superSys.name._aliasClass__members()] # pylint: disable=no-member, protected-access,line-too-long # noqa: E501
+        for na in self.superSys.name._aliasClass__members(): # pylint: disable=no-member, protected-access
+            count = termCount
+            while self._isTaken(na+"Term"+str(count)):
+                count += 1
+            self.alias = na+"Term"+str(count)
+
+    def _isTaken(self, alias):
+        r"""
+        Returns True if the alias belongs to another (existing) object, e.g. a term that is removed from the system.
+        """
+        try:
+            return self.getByNameOrAlias(alias) is not self
+        except ValueError:
+            return False
 
     @property
     def _freeMatSimple(self):
@@ -1006,11 +1022,12 @@ class qSystem(genericQSys):
         if self not in _exclude:
             _exclude.append(self)
             subSys = self.getByNameOrAlias(subSys)
-            if self.superSys is not None:
-                self.superSys._removeSubSysExc(subSys, _exclude=_exclude) # pylint: disable=protected-access
-
             if subSys in self.subSys.values():
                 super()._removeSubSysExc(subSys, _exclude=_exclude)
+                subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
+                self._paramUpdated = True
+            elif self.superSys is not None:
+                self.superSys._removeSubSysExc(subSys, _exclude=_exclude) # pylint: disable=protected-access
 
     @terms.setter
     def terms(self, subSys):
@@ -1250,6 +1267,7 @@ class qCoupling(termTimeDep):
                 # TODO raise a meaningful error
                 break
         self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
+        self._paramUpdated = True
         return self
 
     @_recurseIfList
@@ -1264,8 +1282,13 @@ class qCoupling(termTimeDep):
         r"""
         method to remove terms from the coupling
         """
-        vals = self._qBase__subSys.values() # pylint: disable=no-member
-        for ind, val in enumerate(vals):
-            systs = val[0]
-            if subSys in systs:
-                self._qBase__subSys.pop(str(ind)) # pylint: disable=no-member
+        subSys = self.getByNameOrAlias(subSys)
+        vals = list(self._qBase__subSys.values()) # pylint: disable=no-member
+        kept = [val for val in vals if subSys not in val[0]]
+        if len(kept) != len(vals):
+            # keys are the positions
+            self._qBase__subSys.clear() # pylint: disable=no-member
+            for ind, val in enumerate(kept):
+                self._qBase__subSys[str(ind)] = val # pylint: disable=no-member
+            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
+            self._paramUpdated = True
-- 
2.43.0


From 5e4ea0aadb8962fcbf2b01337d7f9080bca34d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:28 +0000
Subject: [PATCH 44/50] fix: dimensions around nested legacy systems follow
 additions, removals and changes

---
 src/quanguru/classes/QSys.py | 100 ++++++++++++++---------------------
 1 file changed, 41 insertions(+), 59 deletions(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index c89e9aa..b412708 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -257,6 +257,13 @@ class genericQSys(QSimComp):
             if isinstance(sys, genericQSys):
                 sys._dimsAfter = int((sys._dimsAfter*val)/oldVal)
 
+    def _setDims(self, before, after):
+        r"""
+        Sets the dimensions before/after ``self`` in a composite system.
+        """
+        self._dimsBefore = before
+        self._dimsAfter = after
+
     @property
     def dimension(self):
         r"""
@@ -476,10 +483,6 @@ class compQSystem(genericQSys):
         internal method used to update relevant information (such as dimension before/after) for the existing and newly
         added sub-systems. This is purely for internal use.
         """
-        for subS in self._compQSystem__qSystems.values():
-            subS._dimsAfter *= subSys.dimension
-            subSys._dimsBefore *= subS.dimension
-
         if subSys._paramBoundBase__matrix is not None:
             for sys in subSys.subSys.values():
                 sys._paramBoundBase__matrix = None
@@ -487,9 +490,34 @@ class compQSystem(genericQSys):
         subSys.simulation._bound(self.simulation) # pylint: disable=protected-access
         self._compQSystem__qSystems[subSys.name] = subSys
         subSys.superSys = self
-        self._genericQSys__dimension = None # pylint: disable=assigning-non-slot
+        self._updateDims()
         return subSys
 
+    def _updateDims(self):
+        r"""
+        Updates the dimensions before/after of every system in the (outermost) composite system containing ``self``.
+        """
+        outermost = self
+        outermost._genericQSys__dimension = None # pylint: disable=assigning-non-slot
+        while (isinstance(outermost.superSys, compQSystem) and (outermost in outermost.superSys.qSystems.values())):
+            outermost = outermost.superSys
+            outermost._genericQSys__dimension = None # pylint: disable=assigning-non-slot
+        outermost._setDims(1, 1)
+
+    def _setDims(self, before, after):
+        r"""
+        Sets the dimensions before/after ``self``, and the corresponding ones for its sub-systems.
+        """
+        super()._setDims(before, after)
+        dims = self.subSysDimensions
+        for ind, sys in enumerate(self.qSystems.values()):
+            sysBefore, sysAfter = before, after
+            for dim in dims[:ind]:
+                sysBefore *= dim
+            for dim in dims[ind+1:]:
+                sysAfter *= dim
+            sys._setDims(sysBefore, sysAfter) # pylint: disable=protected-access
+
     @_recurseIfList
     def _removeSubSysExc(self, subSys, _exclude=[]):#pylint:disable=arguments-differ,dangerous-default-value,too-many-branches
         r"""
@@ -510,22 +538,15 @@ class compQSystem(genericQSys):
         if subSys in list(self.subSys.values()):
             for qS in self.subSys.values():
                 qS.simulation._stateBase__initialState._value = None
-                if qS.ind < subSys.ind:
-                    qS._dimsAfter = int(qS._dimsAfter/subSys.dimension)
-                elif qS.ind > subSys.ind:
-                    qS._dimsBefore = int(qS._dimsBefore/subSys.dimension)
             self.qSystems.pop(subSys.name)
             _exclude.append(self)
             super()._removeSubSysExc(subSys, _exclude=_exclude)
+            subSys._paramBoundBase__paramBound.pop(self.name, None) # pylint: disable=protected-access
+            subSys._setDims(1, 1)
+            self._updateDims()
 
         if self not in _exclude:
             _exclude.append(self)
-            if ((self._dimsAfter != 1) or (self._dimsBefore != 1)):
-                if self.ind < subSys.superSys.ind:
-                    self._dimsAfter = int(self._dimsAfter/subSys.dimension)
-                elif self.ind > subSys.superSys.ind:
-                    self._dimsBefore = int(self._dimsBefore/subSys.dimension)
-
             for sys in self.subSys.values():
                 sys._removeSubSysExc(subSys, _exclude=_exclude) # pylint: disable=protected-access
                 #_exclude.append(sys)
@@ -535,11 +556,8 @@ class compQSystem(genericQSys):
             _exclude.append(self.superSys)
 
         #subSys.superSys = None
-        subSys._dimsAfter = 1
-        subSys._dimsBefore = 1
         self.delMatrices(_exclude=[])
         self.simulation._stateBase__initialState._value = None
-        self._genericQSys__dimension = None # pylint: disable=assigning-non-slot
 
     @property
     def qCouplings(self):
@@ -595,54 +613,18 @@ class compQSystem(genericQSys):
         for sys in self.qCouplings.values():
             sys._constructMatrices() # pylint: disable=protected-access
 
-    def updateDimension(self, qSys, newDimVal, oldDimVal=None, _exclude=[]):#pylint:disable=dangerous-default-value,too-many-branches
+    def updateDimension(self, qSys, newDimVal, oldDimVal=None, _exclude=[]):#pylint:disable=dangerous-default-value,unused-argument
         r"""
         This method is called when the dimension of a subSys ``qSys`` is changed, so that the relevant changes are
         reflected to dimension before/after information for the other systems in the composite system.
         """
-        # TODO can be combined with removeSubSys by a decorator or another method to simplfy both
-        if oldDimVal is None:
-            oldDimVal = qSys._genericQSys__dimension
-        self._genericQSys__dimension = None # pylint: disable=assigning-non-slot
         if qSys in self.qSystems.values():
-            _exclude.append(self)
             qSys._genericQSys__dimension = newDimVal
-            ind = qSys.ind
-            for qS in self.qSystems.values():
-                if qS.ind < ind:
-                    qS._dimsAfter = int((qS._dimsAfter*newDimVal)/oldDimVal)
-                elif qS.ind > ind:
-                    qS._dimsBefore = int((qS._dimsBefore*newDimVal)/oldDimVal)
-
-            #if self.simulation._stateBase__initialStateInput.value is not None: # pylint: disable=no-member
-            #    self.initialState = self.simulation._stateBase__initialStateInput.value # pylint: disable=no-member
+            self._updateDims()
             self._paramUpdated = True
-            #self._constructMatrices()
-            #for sys in self.subSys.values():
-            #    if sys.simulation._stateBase__initialStateInput.value is not None:
-            #        sys.initialState = sys.simulation._stateBase__initialStateInput.value
-
-        if self not in _exclude:
-            _exclude.append(self)
-            if ((self._dimsAfter != 1) or (self._dimsBefore != 1)):
-                if self.ind < qSys.superSys.ind:
-                    self._dimsAfter = int((self._dimsAfter*newDimVal)/oldDimVal)
-                elif self.ind > qSys.superSys.ind:
-                    self._dimsBefore = int((self._dimsBefore*newDimVal)/oldDimVal)
-            else:
-                for sys in self.subSys.values():
-                    if sys not in _exclude:
-                        _exclude.append(sys)
-                        if sys.ind < qSys.superSys.ind:
-                            sys._dimsAfter = int((sys._dimsAfter*newDimVal)/oldDimVal)
-                        elif sys.ind > qSys.superSys.ind:
-                            sys._dimsBefore = int((sys._dimsBefore*newDimVal)/oldDimVal)
-
-        if self.superSys is not None:
-            self.superSys.updateDimension(qSys=qSys, newDimVal=newDimVal, oldDimVal=oldDimVal, _exclude=_exclude)
-        self.delMatrices(_exclude=[])
-        for c in self.qCouplings.values():
-            c.delMatrices(_exclude=[])
+            self.delMatrices(_exclude=[])
+            for c in self.qCouplings.values():
+                c.delMatrices(_exclude=[])
         return qSys
 
 class termTimeDep(paramBoundBase):
-- 
2.43.0


From cc8384a149915c9c84da087e7e8d568288a0396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 45/50] fix: legacy couplings of more than two systems take all
 their operators

---
 src/quanguru/classes/QSys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSys.py b/src/quanguru/classes/QSys.py
index b412708..0b1098c 100644
--- a/src/quanguru/classes/QSys.py
+++ b/src/quanguru/classes/QSys.py
@@ -1193,7 +1193,7 @@ class qCoupling(termTimeDep):
         cMats = []
         for ind in range(len(self._qBase__subSys)): # pylint: disable=no-member
             qts = []
-            for indx in range(len(list(self._qBase__subSys.values())[ind])): # pylint: disable=no-member
+            for indx in range(len(list(self._qBase__subSys.values())[ind][0])): # pylint: disable=no-member
                 sys = list(self._qBase__subSys.values())[ind][0][indx] # pylint: disable=no-member
                 order = sys.ind
                 oper = list(self._qBase__subSys.values())[ind][1][indx] # pylint: disable=no-member
-- 
2.43.0


From d395f9bb5791ee3ba50722190b6b73c3359becfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 46/50] fix: systems and protocols are removed from simulations
 by name, with their protocols and after runs

---
 src/quanguru/classes/QSim.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 3dd482f..0bcf58b 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -232,10 +232,15 @@ class Simulation(timeBase):
         r"""
         Remove a quantum system and corresponding sweeps from the simulation.
         """
-        #for key, subSys in self._qBase__subSys.items(): # pylint: disable=no-member
-        #    if ((subSys is subS) or (subSys.name == subS)):
-        super()._removeSubSysExc(subS, _exclude=[]) # pylint: disable=no-member
-        #print(subS.name + ' and its protocol ' + key.name + ' is removed from qSystems of ' + self.name)
+        subS = self.getByNameOrAlias(subS)
+        # keys are the protocols of the system, or its name until the free evolution is used
+        keys = [key for key, qSys in self._qBase__subSys.items() if qSys is subS] # pylint: disable=no-member
+        if len(keys) == 0:
+            super()._removeSubSysExc(subS, _exclude=[]) # pylint: disable=no-member
+        for key in keys:
+            self._qBase__subSys.pop(key) # pylint: disable=no-member
+            if isinstance(key, named):
+                self.removeSweep([key, key.simulation])
         self.removeSweep([subS, subS.simulation, subS._freeEvol, subS._freeEvol.simulation])
 
     @_recurseIfList
@@ -253,9 +258,16 @@ class Simulation(timeBase):
         r"""
         Remove a protocoal and corresponding sweeps from the simulation.
         """
-        # FIXME what if freeEvol case, protocol then corresponds to qsys.name before simulation run
-        #  or a freeEvol obj after run
+        if Protocol is None:
+            return
+        Protocol = self.getByNameOrAlias(Protocol)
+        if isinstance(getattr(type(Protocol), '_freeEvol', None), property):
+            # a system (its name) stands for its free evolution
+            Protocol = Protocol._freeEvol # pylint: disable=protected-access
         qsys = self._qBase__subSys.pop(Protocol, None) # pylint: disable=no-member
+        if (qsys is None) and (Protocol is getattr(Protocol.superSys, '_freeEvol', None)):
+            # the key of a free evolution is the name of its system until the run
+            qsys = self._qBase__subSys.pop(Protocol.superSys.name, None) # pylint: disable=no-member
         if qsys is not None:
             self.removeSweep([Protocol, Protocol.simulation])
             if qsys not in self.qSystems:
-- 
2.43.0


From dee3d430bb863ab1e77244c3c1f7ad5a8c5691d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 47/50] fix: a system added to a simulation by its name keeps
 its place and protocols

---
 src/quanguru/classes/QSim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 0bcf58b..f0a8c42 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -26,7 +26,7 @@ import sys
 import platform
 import multiprocessing
 
-from .base import _recurseIfList, named
+from .base import _recurseIfList, aliasClass, named
 from .QSimBase import timeBase
 from .QSweep import Sweep
 from .modularSweep import runSimulation
@@ -194,6 +194,8 @@ class Simulation(timeBase):
             for qsys in subS:
                 self.addQSystems(qsys, **kwargs)
         else:
+            if isinstance(subS, (str, aliasClass)):
+                subS = self.getByNameOrAlias(subS)
             # this horrible solution needs to be fixed!
             if subS not in self._qBase__subSys.values(): # pylint: disable=no-member
                 subS = super().addSubSys(subS, **kwargs)
-- 
2.43.0


From 0b5e49c81bb1ef2d546d5939211c1db99497d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:07 +0000
Subject: [PATCH 48/50] fix: time dependencies of protocols are prepared before
 they run

---
 src/quanguru/classes/QPro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 3159dc5..d251d78 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -233,6 +233,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             lc = 1
             td = False
             if len(self.timeDependency.sweeps) > 0:
+                self.timeDependency.prepare()
                 lc = self.timeDependency.indMultip
                 td = True
 
-- 
2.43.0


From be4f1df72fb522b3adc76a2f56e959a90d2458fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:42 +0000
Subject: [PATCH 49/50] fix: updates by a function are undone also when their
 value is the present one

---
 src/quanguru/classes/QPro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index d251d78..f54bb58 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -498,7 +498,8 @@ class Update(updateBase):
             self._updateBase__function(self) # pylint: disable=no-member
 
     def _setback(self):
-        if self.value != self.memoryValue:
+        # a function can set something else than the value
+        if self._updateBase__function is not None or self.value != self.memoryValue: # pylint: disable=no-member
             super()._runUpdate(self.memoryValue)
         for sys, value in self.__memory:
             setattr(sys, self.key, value)
-- 
2.43.0


From ff5f57814e1c0b1ef9facd14d2b5afefcb47a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:11 +0000
Subject: [PATCH 50/50] fix: runs that keep results (resetRes=False) keep all
 of them, and those of other simulations

---
 src/quanguru/classes/QRes.py | 17 +++++++++++++++++
 src/quanguru/classes/QSim.py |  9 ++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 79b4523..6323d8b 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -250,6 +250,23 @@ class qResults(qResBase):
             qRes._qResBase__statesLast = defaultdict(list)
             qRes._qResBase__calculated = defaultdict(list)
 
+    def _kept(self):
+        r"""
+        returns the calculated values, results and states, which :meth:`~_prepend` puts before those of another run.
+        """
+        return (self._qResBase__calculated, self._qResBase__resultsLast, self._qResBase__statesLast) # pylint: disable=no-member
+
+    def _prepend(self, results, states):
+        r"""
+        Method to put the given results and states of earlier runs before (the lists of) the present ones.
+        """
+        for old, new in ((results, self._qResBase__resultsLast), (states, self._qResBase__statesLast)): # pylint: disable=no-member
+            for key, val in old.items():
+                if key not in new:
+                    new[key] = val
+                elif isinstance(val, list) and isinstance(new[key], list):
+                    new[key] = val + new[key]
+
     def _resetLast(self):
         r"""
         Method to reset the Last dictionaries only, and it is called before the time evolution to empty the Last. After
diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index f0a8c42..b140579 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -362,10 +362,13 @@ class Simulation(timeBase):
         for protocol in self.subSys.keys():
             protocol.prepare()
         self.Sweep.prepare()
-        if resetRes:
-            for qres in self.qRes.allResults.values():
-                qres._reset() # pylint: disable=protected-access
+        kept = [] if resetRes else [(qres, qres._kept()) for qres in self.qRes.allResults.values()] # pylint: disable=W0212
+        self.qRes._reset() # pylint: disable=protected-access
+        for qres, previous in kept:
+            qres._qResBase__calculated = previous[0] # pylint: disable=protected-access
         _poolMemory.run(self, p, coreCount)
+        for qres, previous in kept:
+            qres._prepend(*previous[1:]) # pylint: disable=protected-access
         for key, val in self.qRes.states.items():
             self.qRes.allResults[key]._qResBase__states[key] = val
         # TODO Test this
-- 
2.43.0

