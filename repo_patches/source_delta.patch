From 91d3a6f5b1ca29ee63c51924dfb92eb815cbb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 01/54] fix: FiniteTensorNetwork instances shared (and aliased)
 their tensorNames list

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..97f8048 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -8,7 +8,7 @@ class FiniteTensorNetwork:
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
     def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+        self.tensorNames = list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From fce8c3db29c4f5dae140a5fb5b76a73a61c5311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 02/54] fix: FiniteTensorNetwork reused a contraction sequence
 cached before tensors or links were edited

---
 src/CTL/tensornetwork/tensornetwork.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 97f8048..4721e13 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -39,11 +39,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
@@ -54,6 +56,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.optimalSeq = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
-- 
2.43.0


From d8ea244b22c4bf9107464e1623b6a0af38245968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 03/54] fix: outer product of a diagonal and a dense tensor
 lost the dense tensor's dtype

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..ee9c74d 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -86,7 +86,7 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
+                data = xplib.xp.zeros(shape, dtype = xplib.xp.result_type(ta.a.dtype, tb.a.dtype))
                 einsumStr = ('j' * ta.dim) + '...->j...'
                 outerData = xplib.xp.multiply.outer(ta.a, tb.a)
                 xplib.xp.einsum(einsumStr, data)[...] = outerData
-- 
2.43.0


From 781d18a63209da7178d26d4873ff3964ba1d4121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 04/54] fix: contractTwoTensors with explicit bonds depended on
 the order of the legs in the bonds

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ee9c74d..f274f5c 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -104,8 +104,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [bond.sideLeg(tb) for bond in bonds]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From 1912464293e6928a68cbd89892a5edaaba39a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 05/54] fix: diagonalNDTensor discarded the imaginary part of
 complex diagonals

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..e4fc8ba 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1094,7 +1094,7 @@ def diagonalNDTensor(a, dim):
 
     """
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
-- 
2.43.0


From e92af6559717d451c464bd281140424e36c082c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 06/54] fix: 0-dimensional DiagonalTensor could not be copied
 or expanded, and aliased its input data

---
 src/CTL/funcs/funcs.py           | 2 ++
 src/CTL/tensor/diagonalTensor.py | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index e4fc8ba..6d3e232 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,6 +1093,8 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (a.shape == ()):
+        return xplib.xp.copy(a)
     l = a.shape[0]
     res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..1994ce3 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,9 +228,9 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(shape[:1])
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (len(data.shape) <= 1):
             data = xplib.xp.copy(data)
         else:
             l, dim = len(shape), shape[0]
@@ -256,7 +256,7 @@ class DiagonalTensor(Tensor):
         if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
             if (data is None) and (not isTensorLike):
                 data = xplib.xp.array(1.0)
-            return [], data, [], () # scalar
+            return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
             
 
         if (legs is not None):
-- 
2.43.0


From 91c6cba2e237c0ee0e1ce0926bcfa9643898a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 07/54] fix: moveLegsToFront emptied tensor.legs passed as
 argument and lost legs when rejecting an unknown one

---
 src/CTL/tensor/diagonalTensor.py | 7 ++++---
 src/CTL/tensor/tensor.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 1994ce3..9d222db 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -492,7 +492,8 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
+        remainLegs = list(self.legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
@@ -502,12 +503,12 @@ class DiagonalTensor(Tensor):
                     break
 
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs 
         # self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
     def toVector(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..51fc83d 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,8 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
+        remainLegs = list(self.legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
@@ -571,12 +572,12 @@ class Tensor(TensorBase):
                     break
 
         for leg in movedLegs:
-            self.legs.remove(leg)
+            remainLegs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        self.legs = movedLegs + remainLegs 
         if (not self.tensorLikeFlag):
             self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
-- 
2.43.0


From ea2fa9d5ced329c6de989a580f6406d53fa93645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 08/54] fix: toMatrix failed when all legs are on one side

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 9d222db..53787f4 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -557,9 +557,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 51fc83d..1675755 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -616,9 +616,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From 8ebe1947b36847a557f6bacb87f38626e00d7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 09/54] fix: sumOutLegByLabel ignored the weights for a list of
 labels

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 1675755..b83b6e1 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1116,7 +1116,7 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward = backward, weights = weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From 16629401aec29f130e90330c4334115977425911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 10/54] fix: copyTensorList(linkOutgoingBonds = True) removed
 the bond attribute of the original legs

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..f369ef4 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From 9b6d583d96ee18a8d942850961489f5e701599c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 11/54] fix: FreeBoundaryMPS without chi got chi = -1 instead
 of its largest bond dimension

---
 src/CTL/examples/MPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 8ce70b4..17180ff 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -50,7 +50,7 @@ class FreeBoundaryMPS:
         bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = min(bondChi, bond.legs[0].dim) 
+            bondChi = max(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
-- 
2.43.0


From 528add0bb53359cff5035537d23f2823a1996cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 12/54] fix: StringSet.add and remove changed the length of
 generated strings

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From 1de34a0e2b83bebc026c324ff45174cb4b4bb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 13/54] fix: FreeBoundaryMPS.mergeTensor left a stale activeIdx

---
 src/CTL/examples/MPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 17180ff..a5eb7a6 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -242,6 +242,7 @@ class FreeBoundaryMPS:
         funcName = 'FreeBoundaryMPS.mergeTensor'
         assert (self.isIndex(idx) and self.isIndex(idx + 1)), funcs.errorMessage("{} or {} is invalid index.".format(idx, idx + 1), location = funcName)
         self._tensors = self._tensors[:idx] + [newTensor] + self._tensors[(idx + 2):]
+        self.activeIdx = None
 
     def hasTensor(self, tensor):
         return tensor in self._tensors
-- 
2.43.0


From 127194aa520a49c0d387c425f2d9befe85bce1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 14/54] fix: outer product of two diagonal tensors was
 computed, costed and searched as if it were diagonal

---
 src/CTL/tensor/contract/contract.py        |  6 +++---
 src/CTL/tensor/contract/optimalContract.py |  4 ++--
 src/CTL/tensor/contract/tensorGraph.py     | 21 +++++++--------------
 3 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index f274f5c..2ddf6c7 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -77,18 +77,18 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         shape = ta.shape + tb.shape
         legs = ta.legs + tb.legs
 
-        if (ta.diagonalFlag and tb.diagonalFlag):
+        if (ta.diagonalFlag and tb.diagonalFlag and ((ta.dim == 0) or (tb.dim == 0))):
             if (tensorLikeContract):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
                 return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
-        elif (ta.diagonalFlag):
+        elif (ta.diagonalFlag and (ta.dim > 0)):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
                 data = xplib.xp.zeros(shape, dtype = xplib.xp.result_type(ta.a.dtype, tb.a.dtype))
                 einsumStr = ('j' * ta.dim) + '...->j...'
-                outerData = xplib.xp.multiply.outer(ta.a, tb.a)
+                outerData = xplib.xp.multiply.outer(ta.a, tb.toTensor())
                 xplib.xp.einsum(einsumStr, data)[...] = outerData
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index f369ef4..8dc3e4d 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,12 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB and (len(bonds) > 0)):
         return ta.bondDimension(), 1
 
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..07ea54d 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -178,7 +178,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 # both diagonal, only need to product
                 return shapeA[0]
             
@@ -200,7 +200,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -221,9 +221,6 @@ class TensorGraph(UndirectedGraph):
             commonEdges = funcs.commonElements(edgesA, edgesB)
             return len(commonEdges) > 0
         
-        def isDiagonalOuterProduct(tsA, tsB):
-            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
-
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
                 tsA = self.contractRes[tsA]
@@ -242,7 +239,9 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            # the outer product of two diagonal tensors is not diagonal, unless one of them is a scalar
+            diagonal = diagonalA and diagonalB and (len(edgesA) == 0 or len(edgesB) == 0 or isSharingBond(tsA, tsB))
+            return (edges, shape, diagonal)
 
         def getSize(tsA, tsB):
             '''
@@ -273,15 +272,13 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
-                if (self.contractRes[x] is None):
-                    self.contractRes[x] = calculateContractRes(tsA, tsB)
-                
                 localCost = costFunc(tsA, tsB)
                 currCost = self.optimalCost[tsA] + self.optimalCost[tsB] + localCost
                 if (minCost is None) or (currCost < minCost):
                     minCost = currCost
                     minTSA = tsA
                     minTSB = tsB
+                    self.contractRes[x] = calculateContractRes(tsA, tsB)
 
             self.optimalCost[x] = minCost
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
@@ -372,12 +369,7 @@ class TensorGraph(UndirectedGraph):
                             #print('t1 = {}, t2 = {}'.format(t1, t2))
                             if ((t1 & t2) != 0):
                                 continue 
-                            if (isDiagonalOuterProduct(self.contractRes[t1], self.contractRes[t2])):
-                                # diagonal outer product is banned
-                                continue
                             tt = t1 | t2
-                            if (self.contractRes[tt] is None):
-                                self.contractRes[tt] = calculateContractRes(t1, t2)
 
                             if (new_flag[t1] or new_flag[t2]):
                                 mu_0 = 0
@@ -396,6 +388,7 @@ class TensorGraph(UndirectedGraph):
                                     #print('append {} to {}'.format(tt, c))
                                 if (self.optimalCost[tt] is None) or (self.optimalCost[tt] > mu_curr):
                                     self.optimalCost[tt] = mu_curr
+                                    self.contractRes[tt] = calculateContractRes(t1, t2)
                                     self.optimalSeq[tt] = self.optimalSeq[t1] + self.optimalSeq[t2] + [(lowbitI(t1), lowbitI(t2))]
                                     new_flag[tt] = True
 
-- 
2.43.0


From 4c0ebb09785f417cebe68b8183370dc5f3e50d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 15/54] fix: greedy search of contraction sequence crashed on
 disconnected networks

---
 src/CTL/tensor/contract/tensorGraph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 07ea54d..e8f7ebb 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -300,9 +300,10 @@ class TensorGraph(UndirectedGraph):
                 minTSA = -1
                 minTSB = -1
 
-                for tsA, tsB in funcs.pairIterator(tensorSet):
-                    if (not isSharingBond(tsA, tsB)):
-                        continue
+                pairs = [(tsA, tsB) for tsA, tsB in funcs.pairIterator(tensorSet)]
+                # outer products only when there is no bond left
+                sharingPairs = [(tsA, tsB) for tsA, tsB in pairs if isSharingBond(tsA, tsB)]
+                for tsA, tsB in (sharingPairs if len(sharingPairs) > 0 else pairs):
                     newSize = getSize(tsA, tsB)
                     if (minSize == -1) or (newSize < minSize):
                         minSize = newSize 
-- 
2.43.0


From 29ce056ea0ae65eacdb68e4c0fd45170023eed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 16/54] fix: search of contraction sequence with real cost
 crashed on scalar tensors

---
 src/CTL/tensor/contract/tensorGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e8f7ebb..2fd2d7e 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -321,7 +321,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if len(x) > 0], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From bd932a84e5bae4fdd039311dcde948b148224129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 17/54] fix: TensorGraph ignored edges added after its edges
 were indexed, and optimalCostResult needed an earlier search

---
 src/CTL/tensor/contract/tensorGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 2fd2d7e..059be67 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,6 +42,7 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
@@ -59,13 +60,12 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
         Add an index to each edge.
         """
-        if (self.indexed):
-            return
         edges = self.getEdges()
         m = len(edges)
         for i in range(m):
-- 
2.43.0


From 3bb043de2ca0e6d7b34ed0c5f196823b29a000d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 18/54] fix: makeTensorGraph crashed on legs linked to tensors
 outside of the list

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 8dc3e4d..48cb980 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -119,7 +119,7 @@ def makeTensorGraph(tensorList):
         idxDict[tensorList[i]] = i
     for i in range(n):
         for leg in tensorList[i].legs:
-            if (leg.bond is None):
+            if (leg.bond is None) or (leg.anotherSide().tensor not in idxDict):
                 g.addFreeEdge(i, leg.dim)
             else:
                 bond = leg.bond 
-- 
2.43.0


From 1c4945460e88f4f47defd71cbfd359fc3f1552d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 19/54] fix: makeLink left a part of the links in place when
 rejecting a list of legs

---
 src/CTL/tensor/contract/link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..f972ad9 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -52,9 +52,11 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
 
     assert (len(legA) == len(legB)), "Error: the number of legs from A({}) and B({}) are not the same.".format(len(legA), len(legB))
 
-    bonds = []
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    bonds = []
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
-- 
2.43.0


From 5f85bcb02653a9fd08962c9fac2ea116cd91b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 20/54] fix: tensorSVDDecomposition crashed when rows or cols
 was left to be deduced

---
 src/CTL/tensor/tensorFunc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..75eb9b3 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -72,6 +72,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     preserveLegs = False
 
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
+    if (rows is None) and (cols is not None):
+        rows = [leg.name for leg in a.complementLegs([a.getLeg(label) for label in cols])]
+    elif (cols is None) and (rows is not None):
+        cols = [leg.name for leg in a.complementLegs([a.getLeg(label) for label in rows])]
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
     rowName = '|'.join(rows)
-- 
2.43.0


From 77af8d487920f7ea6a4aef46141bf10a65822d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 21/54] fix: SquareTRG could not be initialized with two
 different tensors

---
 src/CTL/examples/TRG.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index 04a7c5b..e99d063 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -119,6 +119,11 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
+
+        self.aNorms = []
+        self.errors = []
+        self.aArchive = []
+
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -128,13 +133,7 @@ class SquareTRG:
             self.iterate()
         else:
             self.b = self.a
-
-        self.aNorms = []
-        self.errors = []
-
-        self.aArchive = []
-
-        self.appendToArchive()
+            self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From a37d8192b168a8da962f0a298eb31a7ce03528f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 22/54] fix: Ising tensors of antiferromagnetic interactions
 were filled with NaN

---
 src/CTL/models/Ising.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..ddb4ff0 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -174,8 +174,13 @@ def IsingEdgeMatrix(betaJ):
     ndarray of (2, 2)
         The local edge tensor for one site (diagonal) tensor to absorb.
     """
-    diag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) + xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
-    offDiag = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5) - xplib.xp.sqrt(xplib.xp.sinh(betaJ) * 0.5)
+    sqrtCosh = xplib.xp.sqrt(xplib.xp.cosh(betaJ) * 0.5)
+    sqrtSinh = xplib.xp.sqrt(xplib.xp.sinh(abs(betaJ)) * 0.5)
+    if (betaJ < 0):
+        # antiferromagnetic: no real square root
+        sqrtSinh = sqrtSinh * 1j
+    diag = sqrtCosh + sqrtSinh
+    offDiag = sqrtCosh - sqrtSinh
     return xplib.xp.array([[diag, offDiag], [offDiag, diag]])
 
 def IsingSiteTensor(betaJ, dim = 4, labels = None):
-- 
2.43.0


From 1d932439a95892090f8e785320c58a034d7343e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 23/54] fix: Ising tensor of a site without interactions could
 not be created

---
 src/CTL/models/Ising.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index ddb4ff0..c763600 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -205,7 +205,11 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
     a = xplib.xp.array([1.0, 1.0])
-    a = funcs.diagonalNDTensor(a, dim = dim)
+    if (dim == 0):
+        # an isolated site: sum over its states
+        a = xplib.xp.array(xplib.xp.sum(a))
+    else:
+        a = funcs.diagonalNDTensor(a, dim = dim)
     if (funcs.isRealNumber(betaJ)):
         betaJ = [betaJ] * dim
     # edgeMat = IsingEdgeMatrix(betaJ)
-- 
2.43.0


From 957cb82235bc141c85ba19496f912de4e0178856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 24/54] fix: ImpurityTensorNetwork crashed when highestOrder
 exceeds the number of given impurities

---
 src/CTL/examples/impurity.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index 11aac48..f79f73b 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -32,9 +32,10 @@ class ImpurityTensorNetwork:
     def appendToArchive(self, norm):
         # print('norm = {}'.format(norm))
         for a in self.impurities:
-            a.a /= norm 
+            if (a is not None):
+                a.a /= norm 
         self.norms.append(norm)
-        self.impurityArchive.append([a.copy() for a in self.impurities])
+        self.impurityArchive.append([None if (a is None) else a.copy() for a in self.impurities])
 
     def initialize(self):
         assert (self.RG is not None), "Error: ImpurityTensorNetwork cannot initialize if RG is None."
@@ -78,6 +79,9 @@ class ImpurityTensorNetwork:
                     res.reArrange(resLabels)
                     resA += res.a * partWeight 
             
+            if (resA is None):
+                newImpurities.append(None)
+                continue
             resA /= totalWeight 
             resTensor = Tensor(labels = resLabels, data = resA, degreeOfFreedom = newDOF)
             newImpurities.append(resTensor)
@@ -91,7 +95,7 @@ class ImpurityTensorNetwork:
         for i in range(len(self.impurityArchive)):
             res.append([])
             for tensor in self.impurityArchive[i]:
-                res[-1].append(self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
+                res[-1].append(None if (tensor is None) else self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
 
         return res
 
-- 
2.43.0


From eb1552baf69d264c0b30de83d13f0159a00a316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 25/54] fix: addTensorTag renamed a part of the legs when
 rejecting a tagged tensor

---
 src/CTL/tensor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index b83b6e1..57f72b3 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -840,6 +840,7 @@ class Tensor(TensorBase):
         """
         for leg in self.legs:
             assert (leg.name.find('-') == -1), "Error: leg name {} already has a tensor tag.".format(leg.name)
+        for leg in self.legs:
             leg.name = name + '-' + leg.name 
     
     def removeTensorTag(self):
-- 
2.43.0


From 063d03a1335712381b8a09b18d23c48b1147061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 26/54] fix: sumOutLeg of a diagonal tensor lost the leg when
 rejecting weights, and shape-only tensors could not be summed out

---
 src/CTL/tensor/diagonalTensor.py | 17 ++++++++---------
 src/CTL/tensor/tensor.py         |  3 ++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 53787f4..1e3f997 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -735,18 +735,17 @@ class DiagonalTensor(Tensor):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
+        data = self.a
+        if not self.tensorLikeFlag:
+            if weights is not None:
+                data = data * weights
+            if (len(self.legs) == 1):
+                # not a diagonal tensor, since the last sum will give a single value
+                data = xplib.xp.array(xplib.xp.sum(data))
+        self.a = data
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
-        # if weights is None:
         if (len(self.legs) == 0):
-            # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
-                self.a = xplib.xp.array(xplib.xp.sum(self.a))
-            else:
-                self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
-        else:
-            if (weights is not None):
-                self.a = self.a * weights
 
     def typeName(self):
         """
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 57f72b3..ea15d69 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1098,7 +1098,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if not self.tensorLikeFlag:
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 3186d592e429af91f110d1c70d6abace2f4a413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 27/54] fix: mergeLink destroyed the links of a tensor when
 rejecting a diagonal one

---
 src/CTL/tensor/contract/link.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index f972ad9..142017a 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -114,6 +114,9 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     else:
         bondNameA, bondNameB = bondName # tuple/list
 
+    if (ta.diagonalFlag or tb.diagonalFlag):
+        raise TypeError(funcs.errorMessage('links of diagonal tensor cannot be merged, {} and {} obtained.'.format(ta, tb), location = funcName))
+
     newLegA = ta.outProduct(legList = mergeLegA, newLabel = bondNameA)
     newLegB = tb.outProduct(legList = mergeLegB, newLabel = bondNameB)
 
-- 
2.43.0


From d14b0e1d59c31d890385ca87ec871075deaed595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 28/54] fix: in-place list contraction of mixed tensor kinds
 destroyed part of the list before rejecting it

---
 src/CTL/tensor/contract/optimalContract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 48cb980..6a600e8 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -214,6 +214,9 @@ def contractAndCostWithSequence(tensorList, seq = None, bf = False, typicalDim =
     totalCost : int
         The exact cost for this contraction process.
     """
+    if (len(set([bool(tensor.tensorLikeFlag) for tensor in tensorList])) > 1):
+        raise TypeError(funcs.errorMessage('tensors to be contracted must be either all Tensor or all TensorLike.', location = 'CTL.tensor.contract.optimalContract.contractAndCostWithSequence'))
+
     if (seq is None):
         # print('{} tensors'.format(len(tensorList)))
         if (greedy):
-- 
2.43.0


From dbb4dfef3c3ae43062fab6585bb71a4c271bc3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 29/54] Revert "fix: ImpurityTensorNetwork crashed when
 highestOrder exceeds the number of given impurities"

This reverts commit 957cb82235bc141c85ba19496f912de4e0178856.
---
 src/CTL/examples/impurity.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/CTL/examples/impurity.py b/src/CTL/examples/impurity.py
index f79f73b..11aac48 100644
--- a/src/CTL/examples/impurity.py
+++ b/src/CTL/examples/impurity.py
@@ -32,10 +32,9 @@ class ImpurityTensorNetwork:
     def appendToArchive(self, norm):
         # print('norm = {}'.format(norm))
         for a in self.impurities:
-            if (a is not None):
-                a.a /= norm 
+            a.a /= norm 
         self.norms.append(norm)
-        self.impurityArchive.append([None if (a is None) else a.copy() for a in self.impurities])
+        self.impurityArchive.append([a.copy() for a in self.impurities])
 
     def initialize(self):
         assert (self.RG is not None), "Error: ImpurityTensorNetwork cannot initialize if RG is None."
@@ -79,9 +78,6 @@ class ImpurityTensorNetwork:
                     res.reArrange(resLabels)
                     resA += res.a * partWeight 
             
-            if (resA is None):
-                newImpurities.append(None)
-                continue
             resA /= totalWeight 
             resTensor = Tensor(labels = resLabels, data = resA, degreeOfFreedom = newDOF)
             newImpurities.append(resTensor)
@@ -95,7 +91,7 @@ class ImpurityTensorNetwork:
         for i in range(len(self.impurityArchive)):
             res.append([])
             for tensor in self.impurityArchive[i]:
-                res[-1].append(None if (tensor is None) else self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
+                res[-1].append(self.RG.tensorTrace(tensor) / self.RG.pureTensorTrace(i))
 
         return res
 
-- 
2.43.0


From 86f15e18b7880ce2aa69ecc8ca62c7049f240552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 30/54] Revert "fix: SquareTRG could not be initialized with
 two different tensors"

This reverts commit 77af8d487920f7ea6a4aef46141bf10a65822d4b.
---
 src/CTL/examples/TRG.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/CTL/examples/TRG.py b/src/CTL/examples/TRG.py
index e99d063..04a7c5b 100644
--- a/src/CTL/examples/TRG.py
+++ b/src/CTL/examples/TRG.py
@@ -119,11 +119,6 @@ class SquareTRG:
 
         if (self.a.degreeOfFreedom is None):
             self.a.degreeOfFreedom = 1
-
-        self.aNorms = []
-        self.errors = []
-        self.aArchive = []
-
         if (b is not None):
             if (isinstance(b, Tensor)):
                 self.b = b.copy()
@@ -133,7 +128,13 @@ class SquareTRG:
             self.iterate()
         else:
             self.b = self.a
-            self.appendToArchive()
+
+        self.aNorms = []
+        self.errors = []
+
+        self.aArchive = []
+
+        self.appendToArchive()
 
     def appendToArchive(self):
         self.normalizeTensors()
-- 
2.43.0


From 92c827890436c911f8f8eaae4d2d8f83a50580d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 31/54] Revert "fix: FreeBoundaryMPS.mergeTensor left a stale
 activeIdx"

This reverts commit 1de34a0e2b83bebc026c324ff45174cb4b4bb34d.
---
 src/CTL/examples/MPS.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index a5eb7a6..17180ff 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -242,7 +242,6 @@ class FreeBoundaryMPS:
         funcName = 'FreeBoundaryMPS.mergeTensor'
         assert (self.isIndex(idx) and self.isIndex(idx + 1)), funcs.errorMessage("{} or {} is invalid index.".format(idx, idx + 1), location = funcName)
         self._tensors = self._tensors[:idx] + [newTensor] + self._tensors[(idx + 2):]
-        self.activeIdx = None
 
     def hasTensor(self, tensor):
         return tensor in self._tensors
-- 
2.43.0


From c45402d831b9f61165100446ca9220ec4a2c79b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 32/54] Revert "fix: FreeBoundaryMPS without chi got chi = -1
 instead of its largest bond dimension"

This reverts commit 9b6d583d96ee18a8d942850961489f5e701599c8.
---
 src/CTL/examples/MPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/examples/MPS.py b/src/CTL/examples/MPS.py
index 17180ff..8ce70b4 100644
--- a/src/CTL/examples/MPS.py
+++ b/src/CTL/examples/MPS.py
@@ -50,7 +50,7 @@ class FreeBoundaryMPS:
         bondChi = -1
         for i in range(self.n - 1):
             bond = shareBonds(self._tensors[i], self._tensors[i + 1])[0]
-            bondChi = max(bondChi, bond.legs[0].dim) 
+            bondChi = min(bondChi, bond.legs[0].dim) 
         
         if (chi is None):
             return bondChi 
-- 
2.43.0


From 5fda3221dabbd935b9b1518592b8e3e307812f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 33/54] fix: optimalCostResult returned the cost of an earlier
 search after edges were added

---
 src/CTL/tensor/contract/tensorGraph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 059be67..56ea316 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -48,6 +48,12 @@ class TensorGraph(UndirectedGraph):
         else:
             self.diagonalFlags = diagonalFlags
 
+    def addEdge(self, idx1, idx2, weight = None):
+        newEdge = super().addEdge(idx1, idx2, weight = weight)
+        # the cost of an earlier search is not the cost of the new graph
+        self.optimalCost = None
+        return newEdge
+
     def addFreeEdge(self, idx, weight = None):
         """
         Add a free edge to a vertex.
@@ -61,6 +67,7 @@ class TensorGraph(UndirectedGraph):
         """
         self.v[idx].addEdge(None, weight = weight)
         self.updated = True
+        self.optimalCost = None
 
     def addEdgeIndex(self):
         """
-- 
2.43.0


From 1261fe200d8119c07cc4978fe49bbc3a8516d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 34/54] fix: DiagonalTensor ignored a contradiction of shape
 and data when one of them is 0-dimensional

---
 src/CTL/tensor/diagonalTensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 1e3f997..c7d04bb 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -253,7 +253,9 @@ class DiagonalTensor(Tensor):
         funcName = "DiagonalTensor.deduction"
 
         # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
+        if (legs is None) and (labels is None) and (shape == () or ((shape is None) and (data is not None) and (data.shape == ()))):
+            if (not self.checkShapeDataCompatible(shape = (), data = data)):
+                raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape {}'.format(data.shape, shape), location = funcName))
             if (data is None) and (not isTensorLike):
                 data = xplib.xp.array(1.0)
             return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
-- 
2.43.0


From a705dad486e66db54c5232ea438d152e3c2e4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 35/54] fix: DiagonalTensor stored data of another shape
 without reshaping it to the requested shape

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index c7d04bb..511d556 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -230,13 +230,15 @@ class DiagonalTensor(Tensor):
         if (data is None):
             data = xplib.xp.ones(shape[:1])
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) <= 1):
+        elif (data.shape == tuple(shape[:1])):
             data = xplib.xp.copy(data)
+        elif (len(shape) == 0):
+            data = xplib.xp.copy(data.reshape(()))
         else:
             l, dim = len(shape), shape[0]
             # print('dim = {}, l = {}'.format(dim, l))
             # print(xplib.xp.diag_indices(dim, l))
-            data = xplib.xp.copy(data[xplib.xp.diag_indices(dim, l)])
+            data = xplib.xp.copy(data.reshape(shape)[xplib.xp.diag_indices(dim, l)])
         return data
 
     def deduction(self, legs, data, labels, shape, isTensorLike = False):
-- 
2.43.0


From 5bffe71c8155831fec184b5c718b0ed9281ebcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 36/54] fix: floatRelativeEqual never held for two negative
 numbers, nor for two zeros

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 6d3e232..bc27001 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -972,7 +972,7 @@ def floatRelativeEqual(a, b, eps = 1e-7):
     bool
         Whether the two numbers are equal.
     """
-    return abs(a - b) < eps * 0.5 * (a + b)
+    return abs(a - b) <= eps * 0.5 * (abs(a) + abs(b))
 
 def floatArrayEqual(a, b, eps = 1e-7):
     """
-- 
2.43.0


From 2c3947f4e7cc02c3e30ef935850b1025be69821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 37/54] fix: ndEye of one dimension set only its first entry

---
 src/CTL/funcs/funcs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index bc27001..2348839 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1143,10 +1143,7 @@ def ndEye(n, l):
         A tensor of shape (l, l, ... l), all values on the main diagonal is 1.
     """
     res = xplib.xp.zeros(tuple([l] * n))
-    if (n == 1):
-        res[0] = 1.0
-    else:
-        res[xplib.xp.diag_indices(l, n)] = 1
+    res[xplib.xp.diag_indices(l, n)] = 1
     return res
 
 def nonZeroElementN(s, eps = 1e-10):
-- 
2.43.0


From 1865823dcae534a52a23ce3dc7d8054d075e72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 38/54] fix: loadData used numpy.float, which numpy has removed

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 2348839..5db6f88 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -306,7 +306,7 @@ def loadData(fileName):
         A 2-d array of the file, columns and rows as two dimensions.
     """
     f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    data = xplib.xp.array([xplib.xp.array([float(x) for x in line.strip().split(' ')]) for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From 49c681d889c9c4b88fc62b21713c1a4922b60626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 39/54] fix: isRealNumber did not recognize numpy numbers, so
 numpy couplings were taken for lists of couplings

---
 src/CTL/funcs/funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 5db6f88..c1fd83d 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -4,6 +4,7 @@ import CTL.funcs.xplib as xplib
 import string
 import random
 import math
+import numbers
 import warnings
 from copy import deepcopy
 
@@ -1237,7 +1238,7 @@ def isRealNumber(a):
     bool
         Whether a is a number(int, float) or not.
     """
-    return (type(a) == int) or (type(a) == float)
+    return isinstance(a, numbers.Real) and (not isinstance(a, bool))
 
 def pairIterator(a):
     """
-- 
2.43.0


From 2941a3bfed2bf2242d5769ab4ad73a533fa664d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 40/54] fix: Ising network of a graph with edges from a site to
 itself, as in a periodic lattice of width 1, could not be contracted

---
 src/CTL/models/Ising.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index c763600..6aa4ae8 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -244,16 +244,22 @@ def IsingTNFromUndirectedGraph(g):
     
     def getLegName(edge, toV):
         return str(toV.index) + '-' + str(edgeIndex[edge])
+    def getLinkEdges(v):
+        # an edge from a vertex to itself only gives a constant weight, but not a link
+        return [e for e in v.edges if (e.anotherSide(v) != v)]
     def getLabels(v):
-        return [getLegName(edge = e, toV = e.anotherSide(v)) for e in v.edges]
+        return [getLegName(edge = e, toV = e.anotherSide(v)) for e in getLinkEdges(v)]
     def getWeights(v):
-        return [e.weight for e in v.edges]
+        return [e.weight for e in getLinkEdges(v)]
 
-    tensors = [IsingSiteTensor(betaJ = getWeights(v), dim = len(v.edges), labels = getLabels(v)) for v in nodes]
+    tensors = [IsingSiteTensor(betaJ = getWeights(v), dim = len(getLinkEdges(v)), labels = getLabels(v)) for v in nodes]
 
     for ei, edge in enumerate(g.getEdges()):
         v1, v2 = edge.vertices 
         idx1, idx2 = v1.index, v2.index 
+        if (idx1 == idx2):
+            tensors[idx1].a = tensors[idx1].a * xplib.xp.exp(edge.weight)
+            continue
         makeLink(getLegName(edge = edge, toV = v2), getLegName(edge = edge, toV = v1), tensors[idx1], tensors[idx2])
 
     return tensors
-- 
2.43.0


From 5ef5ed873a81a2d4697de56d94541241daeff9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 41/54] fix: FiniteTensorNetwork kept the list of labels of the
 caller in addPostOutProduct

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 4721e13..8a727cd 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -74,7 +74,7 @@ class FiniteTensorNetwork:
 
     def addPostOutProduct(self, labelList, newLabel):
         self.checkLock('add post out product: {} -> {}'.format(labelList, newLabel))
-        self.outProductAfter.append((labelList, newLabel))
+        self.outProductAfter.append((list(labelList), newLabel))
 
     def loadBondDims(self, localTensors):
         for name in localTensors:
-- 
2.43.0


From e8c9b84cffc871695837c9612d63d2dba15de890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 42/54] fix: a diagonal tensor reports the element type of its
 data

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 511d556..a6b9584 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -400,7 +400,7 @@ class DiagonalTensor(Tensor):
             
 
     def __init__(self, shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, tensorLikeFlag = False, dtype = xplib.xp.float64):
-        super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
+        super().__init__(data = data, diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
 
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
-- 
2.43.0


From 8f39ef2c2d3a8c592b0ec08ad76ce3600e2bd7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 43/54] fix: a tensor kept the list of legs it was built from

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index a6b9584..30507d4 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -405,7 +405,7 @@ class DiagonalTensor(Tensor):
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
         self.a = data
-        self.legs = legs
+        self.legs = list(legs)
         # self.totalSize = funcs.tupleProduct(shape)
 
         # functions of Tensor from here
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index ea15d69..7d4d3f9 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -112,7 +112,7 @@ class Tensor(TensorBase):
         self.degreeOfFreedom = degreeOfFreedom
         self.name = name
 
-        self.legs = legs 
+        self.legs = list(legs)
         self.a = data
 
     # def __init__(self):
-- 
2.43.0


From 5e06c67d0bfda6ea71168b70fc738de81ddde14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 44/54] fix: TensorDict wrote into the dict it was built from

---
 src/CTL/tensornetwork/tensordict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensordict.py b/src/CTL/tensornetwork/tensordict.py
index 54b9a07..b7a6333 100644
--- a/src/CTL/tensornetwork/tensordict.py
+++ b/src/CTL/tensornetwork/tensordict.py
@@ -5,7 +5,7 @@ class TensorDict:
         if (tensorDict is None):
             self.tensors = dict()
         else:
-            self.tensors = tensorDict
+            self.tensors = dict(tensorDict)
         # print(self.tensors.keys())
 
     @property 
-- 
2.43.0


From db7c06e177f74b90eb8589a60faa2346b551d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 45/54] fix: merge with a bond limit lost products of small
 magnitude

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 2ddf6c7..83cef1e 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -253,7 +253,7 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matB.shape[1]])
+        chi = min([chi, funcs.nonZeroElementN(s, eps = 1e-10 * xplib.xp.sum(s)), matA.shape[0], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From ae4e23ff937950d595d09a2fddf13b9d3fa2b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 46/54] fix: summing out a leg with complex weights left the
 tensor reporting the element type of its old data

---
 src/CTL/tensor/diagonalTensor.py | 1 +
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 30507d4..db998e2 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -746,6 +746,7 @@ class DiagonalTensor(Tensor):
             if (len(self.legs) == 1):
                 # not a diagonal tensor, since the last sum will give a single value
                 data = xplib.xp.array(xplib.xp.sum(data))
+            self.dtype = data.dtype
         self.a = data
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
         if (len(self.legs) == 0):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 7d4d3f9..81cdddc 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1100,6 +1100,7 @@ class Tensor(TensorBase):
         # self.a = xplib.xp.sum(self.a, axis = idx)
         if not self.tensorLikeFlag:
             self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+            self.dtype = self.a.dtype
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 52316c160895449d844329407de9537bdb6786e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:26 +0000
Subject: [PATCH 47/54] fix: renameLabels renamed one label after the other, so
 that labels could not be exchanged

---
 src/CTL/tensor/tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 81cdddc..a491e83 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -751,8 +751,12 @@ class Tensor(TensorBase):
 
         """
         assert (len(changeFrom) == len(changeTo)), "Error: renameLabels need two list with equal number of labels, gotten {} and {}".format(changeFrom, changeTo)
-        for cf, ct in zip(changeFrom, changeTo):
-            self.renameLabel(cf, ct)
+        indices = funcs.generateIndices(self.labels, changeFrom)
+        for index, cf, ct in zip(indices, changeFrom, changeTo):
+            if (index is None):
+                warnings.warn(funcs.warningMessage(warn = 'leg name {} does not exist, no rename happened'.format(cf), location = 'Tensor.renameLabels'), RuntimeWarning)
+            else:
+                self.legs[index].name = ct
 
     def shapeOfLabel(self, label, backward = False):
         """
-- 
2.43.0


From 5f75d1888fc4e4e31e68afe5866c815a813cb842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 48/54] fix: toMatrix of a diagonal tensor could not be asked
 by rows or columns alone, so isIsometry failed on it

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index db998e2..53967eb 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -535,7 +535,7 @@ class DiagonalTensor(Tensor):
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toVector", deprecateMessage = "This will return a vector corresponding to the diagonal of tensor instead of the complete tensor.")
         return xplib.xp.copy(xplib.xp.ravel(self.a))
     
-    def toMatrix(self, rows, cols):
+    def toMatrix(self, rows = None, cols = None):
         """
         Deprecated
 
-- 
2.43.0


From 29eef75713ca599683d5a26bb48390108a3d4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 49/54] fix: shapeOfLabels answered the last dimension for a
 label that does not exist

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index a491e83..f4226bc 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -797,7 +797,7 @@ class Tensor(TensorBase):
         int
             The dimension of the legs of given labels.
         """
-        return self.shapeOfIndices(self.getLabelIndices(labs, backward = backward))
+        return tuple([self.shape[x] if (x != -1) else -1 for x in self.getLabelIndices(labs, backward = backward)])
 
     def shapeOfIndex(self, index):
         """
-- 
2.43.0


From 78ba83d669a7ff04a0824be14a6f5fdc01abd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 50/54] fix: DiagonalTensor did not accept an empty shape given
 as a list

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 53967eb..27137ea 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -415,7 +415,7 @@ class DiagonalTensor(Tensor):
 
         # self._dim = len(shape)
         
-        if shape == ():
+        if len(shape) == 0:
             self._length = 1
         else:
             self._length = shape[0]
-- 
2.43.0


From fd69d0603cab718f21578e7b80c78427e7c01769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 51/54] fix: single returned the data array of the tensor,
 changing it changed the tensor

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index f4226bc..22f6631 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1015,7 +1015,7 @@ class Tensor(TensorBase):
         # only works if shape == (,)
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to single value since no data contained.', 'Tensor.single')
         assert self.shape == (), "Error: cannot get single value from tensor whose shape is not ()."
-        return self.a
+        return self.a[()]
 
     def toTensor(self, labels = None):
         """
-- 
2.43.0


From 0f4fd4a4007a775d1d4ebf2751c8fe0749386dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 52/54] fix: linking a linked leg again left its former partner
 with a bond that the leg is not in

---
 src/CTL/tensor/bond.py |  3 +++
 src/CTL/tensor/leg.py  | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/CTL/tensor/bond.py b/src/CTL/tensor/bond.py
index 3bd8576..41ab313 100644
--- a/src/CTL/tensor/bond.py
+++ b/src/CTL/tensor/bond.py
@@ -27,6 +27,9 @@ class Bond:
     def __init__(self, leg1, leg2, name = None):
         assert (isinstance(leg1, Leg) and (isinstance(leg2, Leg))), errorMessage(err = "Bond must be initialized with 2 Leg elements.", location = 'Bond.__init__')
         assert (leg1.dim == leg2.dim), errorMessage(err = "{} and {} do not share the same dimension.".format(leg1, leg2), location = 'Bond.__init__')
+        # a leg can be in one bond only
+        leg1.unlink()
+        leg2.unlink()
         # self.name = getBondName(name)
         self.name = name
         self.legs = (leg1, leg2)
diff --git a/src/CTL/tensor/leg.py b/src/CTL/tensor/leg.py
index 0caa980..8f4a183 100644
--- a/src/CTL/tensor/leg.py
+++ b/src/CTL/tensor/leg.py
@@ -45,6 +45,16 @@ class Leg:
         else:
             return self.bond.anotherSide(self)
 
+    def unlink(self):
+        """
+        Remove the link on this leg, if there is one: the leg on the other side gets free as well.
+        """
+        if (self.bond is not None):
+            another = self.anotherSide()
+            if (another.bond is self.bond):
+                another.bond = None
+            self.bond = None
+
     def setTensor(self, tensor):
         """
         Set the tensor for the leg.
-- 
2.43.0


From 2d5566b6f461049c6601d2b270cd410397e02520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 53/54] fix: summing out a linked leg left its partner linked
 to a leg of no tensor

---
 src/CTL/tensor/diagonalTensor.py | 1 +
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 27137ea..a390705 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -748,6 +748,7 @@ class DiagonalTensor(Tensor):
                 data = xplib.xp.array(xplib.xp.sum(data))
             self.dtype = data.dtype
         self.a = data
+        leg.unlink()
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
         if (len(self.legs) == 0):
             self._length = 1
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 22f6631..0a465e8 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1105,6 +1105,7 @@ class Tensor(TensorBase):
         if not self.tensorLikeFlag:
             self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
             self.dtype = self.a.dtype
+        leg.unlink()
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From 4d93cbc0a4905f4b5975663d514d9197d3753790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 54/54] fix: outProduct of linked legs left their partners
 linked to legs of no tensor

---
 src/CTL/tensor/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 0a465e8..c09fa5e 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -952,6 +952,8 @@ class Tensor(TensorBase):
         else:
             self.a = xplib.xp.reshape(self.a, newShape)
             newDim = self.a.shape[0]
+        for leg in self.legs[:n]:
+            leg.unlink()
         self.legs = [Leg(self, newDim, newLabel)] + self.legs[n:]
         # return the new leg, for usage of wider usage
         return self.legs[0]
-- 
2.43.0

