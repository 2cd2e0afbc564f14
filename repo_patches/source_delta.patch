From 46eac4cf09461d34f5298a8f048246f0579ed77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 001/122] fix: Python wrapping of DataArrayInt* methods
 returning id arrays

invertArrayO2N2N2O, invertArrayN2O2O2N, invertArrayO2N2N2OBis, findIdsInRange, findIdsNotInRange and
findIdsStrictlyNegative return a DataArrayIdType whatever the width of this. The wrapper declared the width
of this: on the other width the returned object was taken for an array of another type (wrong values, reads
past its end).
---
 src/MEDCoupling_Swig/DataArrayInt.i | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling_Swig/DataArrayInt.i b/src/MEDCoupling_Swig/DataArrayInt.i
index 7622be2..835a734 100644
--- a/src/MEDCoupling_Swig/DataArrayInt.i
+++ b/src/MEDCoupling_Swig/DataArrayInt.i
@@ -60,9 +60,9 @@
     std::string repr() const;
     std::string reprZip() const;
     std::string reprNotTooLong() const;
-    ARRAY *invertArrayO2N2N2O(mcIdType newNbOfElem) const;
-    ARRAY *invertArrayN2O2O2N(mcIdType oldNbOfElem) const;
-    ARRAY *invertArrayO2N2N2OBis(mcIdType newNbOfElem) const;
+    DataArrayIdType *invertArrayO2N2N2O(mcIdType newNbOfElem) const;
+    DataArrayIdType *invertArrayN2O2O2N(mcIdType oldNbOfElem) const;
+    DataArrayIdType *invertArrayO2N2N2OBis(mcIdType newNbOfElem) const;
     DataArrayIdType *indicesOfSubPart(const ARRAY& partOfThis) const;
     ARRAY *fromNoInterlace() const;
     ARRAY *toNoInterlace() const;
@@ -119,9 +119,9 @@
     void applyRModulus(INT val);
     void applyPow(INT val);
     void applyRPow(INT val);
-    ARRAY *findIdsInRange(INT vmin, INT vmax) const;
-    ARRAY *findIdsNotInRange(INT vmin, INT vmax) const;
-    ARRAY *findIdsStrictlyNegative() const;
+    DataArrayIdType *findIdsInRange(INT vmin, INT vmax) const;
+    DataArrayIdType *findIdsNotInRange(INT vmin, INT vmax) const;
+    DataArrayIdType *findIdsStrictlyNegative() const;
     bool checkAllIdsInRange(INT vmin, INT vmax) const;
     static ARRAY *Aggregate(const ARRAY *a1, const ARRAY *a2, INT offsetA2);
     static ARRAY *Meld(const ARRAY *a1, const ARRAY *a2);
-- 
2.43.0


From 63edce73827b4d221fbd91bcb796c5ee868f3b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 002/122] fix: RemoveIdsFromIndexedArrays lost the values ahead
 of offsetForRemoval

The removal is documented to apply to [arr+arrIndx[i]+offsetForRemoval,arr+arrIndx[i+1]) only.
---
 src/MEDCoupling/MEDCouplingMemArray.txx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 1a60caa..9ab9f5c 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -9281,13 +9281,12 @@ DataArrayDiscrete<T>::RemoveIdsFromIndexedArrays(
     std::vector<T> arrOut;  // no utility to switch to DataArrayInt because copy always needed
     for (mcIdType i = 0; i < nbOfGrps; i++, arrIPtr++)
     {
-        if (*arrIPtr - previousArrI > offsetForRemoval)
+        const T *bgOfRemoval(arrPtr + std::min(previousArrI + offsetForRemoval, *arrIPtr));
+        arrOut.insert(arrOut.end(), arrPtr + previousArrI, bgOfRemoval);
+        for (const T *work = bgOfRemoval; work != arrPtr + *arrIPtr; work++)
         {
-            for (const T *work = arrPtr + previousArrI + offsetForRemoval; work != arrPtr + *arrIPtr; work++)
-            {
-                if (s.find(*work) == s.end())
-                    arrOut.push_back(*work);
-            }
+            if (s.find(*work) == s.end())
+                arrOut.push_back(*work);
         }
         previousArrI = *arrIPtr;
         *arrIPtr = ToIdType(arrOut.size());
-- 
2.43.0


From 52c1dfd1a1949fd72946d6ab96c216e14d19476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 003/122] fix: fromListOfPairsToIndexArray merged a group with
 one of the groups it meets only

A pair joining two groups already built left two groups sharing an element: the result was not a partition.
---
 src/MEDCoupling/MEDCouplingMemArray.txx | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 9ab9f5c..b0d209e 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -7659,19 +7659,14 @@ DataArrayDiscrete<T>::fromListOfPairsToIndexArray(
         typename std::map<T, std::set<T>>::iterator it(workStruct.begin());
         while (it != workStruct.end())
         {
-            bool mergeRequested(false);
-            T groupToMerge(std::numeric_limits<T>::max());
+            std::set<T> groupsToMerge;  // all the groups already seen sharing an element with the current one
             for (typename std::set<T>::iterator it2 = it->second.begin(); it2 != it->second.end(); ++it2)
             {
                 auto it3 = zeMap.find(*it2);
                 if (it3 != zeMap.end())
-                {
-                    mergeRequested = true;
-                    groupToMerge = it3->second;
-                    break;
-                }
+                    groupsToMerge.insert(it3->second);
             }
-            if (!mergeRequested)
+            if (groupsToMerge.empty())
             {
                 for (typename std::set<T>::iterator it2 = it->second.begin(); it2 != it->second.end(); ++it2)
                     zeMap[*it2] = it->first;
@@ -7679,10 +7674,17 @@ DataArrayDiscrete<T>::fromListOfPairsToIndexArray(
             }
             else
             {
-                auto it3 = workStruct.find(groupToMerge);
-                (*it3).second.insert(it->second.begin(), it->second.end());
-                for (typename std::set<T>::iterator it2 = it->second.begin(); it2 != it->second.end(); ++it2)
-                    zeMap[*it2] = groupToMerge;
+                T groupToKeep(*groupsToMerge.begin());
+                std::set<T> &kept(workStruct[groupToKeep]);
+                groupsToMerge.erase(groupsToMerge.begin());
+                kept.insert(it->second.begin(), it->second.end());
+                for (const auto &gr : groupsToMerge)
+                {
+                    auto it3 = workStruct.find(gr);
+                    kept.insert(it3->second.begin(), it3->second.end());
+                    workStruct.erase(it3);
+                }
+                for (const auto &elt : kept) zeMap[elt] = groupToKeep;
                 it = workStruct.erase(it);
             }
         }
-- 
2.43.0


From 32ed719ac8670c747ff6c7cf943df35061a9066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 004/122] fix: DataArrayInt::Aggregate wrote out of its result
 on an offset out of the second array

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index b0d209e..43ed277 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -8345,6 +8345,8 @@ DataArrayDiscrete<T>::Aggregate(const DataArrayType *a1, const DataArrayType *a2
     if (nbOfComp != a2->getNumberOfComponents())
         throw INTERP_KERNEL::Exception("Nb of components mismatch for array Aggregation !");
     mcIdType nbOfTuple1(a1->getNumberOfTuples()), nbOfTuple2(a2->getNumberOfTuples());
+    if (offsetA2 < 0 || offsetA2 > nbOfTuple2)
+        throw INTERP_KERNEL::Exception("DataArrayInt::Aggregate : the offset is not in [0,number of tuples of a2] !");
     MCAuto<DataArrayType> ret(DataArrayType::New());
     ret->alloc(nbOfTuple1 + nbOfTuple2 - offsetA2, nbOfComp);
     T *pt = std::copy(a1->begin(), a1->end(), ret->getPointer());
-- 
2.43.0


From 259a4e53e1fc32680016e43220eadc3391acb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 005/122] fix: Python wrapping of DataArrayInt* methods
 returning arrays of the width of this

explodeComponents, ExtractFromIndexedArrays(Slice), SetPartOfIndexedArrays and FromVTK*Polyedra return an array of
the type they are called on: the wrapper declared it an array of mcIdType, which made reads past its end on the other
width.
---
 src/MEDCoupling_Swig/DataArrayInt.i | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MEDCoupling_Swig/DataArrayInt.i b/src/MEDCoupling_Swig/DataArrayInt.i
index 835a734..62b7555 100644
--- a/src/MEDCoupling_Swig/DataArrayInt.i
+++ b/src/MEDCoupling_Swig/DataArrayInt.i
@@ -672,7 +672,7 @@
         std::size_t sz(retCpp.size());
         PyObject *res(PyList_New(sz));
         for(std::size_t i=0;i<sz;i++)
-          PyList_SetItem(res,i,SWIG_NewPointerObj(SWIG_as_voidptr(retCpp[i].retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+          PyList_SetItem(res,i,SWIG_NewPointerObj(SWIG_as_voidptr(retCpp[i].retn()),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         return res;
       }
 
@@ -2163,7 +2163,7 @@
             throw INTERP_KERNEL::Exception("ARRAY::ExtractFromIndexedArrays : unrecognized type entered, expected list of int, tuple of int or ARRAY !");
           }
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
@@ -2174,7 +2174,7 @@
         DataArrayIdType *arrIndexOut=0;
         ARRAY::ExtractFromIndexedArraysSlice(strt,stp,step,arrIn,arrIndxIn,arrOut,arrIndexOut);
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
@@ -2194,7 +2194,7 @@
         DataArrayIdType *arrIndexOut=0;
         ARRAY::ExtractFromIndexedArraysSlice(ToIdType(strt),ToIdType(stp),ToIdType(step),arrIn,arrIndxIn,arrOut,arrIndexOut);
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
@@ -2234,7 +2234,7 @@
             throw INTERP_KERNEL::Exception("ARRAY::SetPartOfIndexedArrays : unrecognized type entered, expected list of int, tuple of int or ARRAY !");
           }
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
@@ -2245,7 +2245,7 @@
         MCAuto<DataArrayIdType> arrIndexOut;
         ARRAY::FromVTKInternalReprOfPolyedra(arrIn,arrIndxIn,arrOut,arrIndexOut);
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut.retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut.retn()),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut.retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
@@ -2256,7 +2256,7 @@
         MCAuto<DataArrayIdType> arrIndexOut;
         ARRAY::FromVTK94InternalReprOfPolyedra(arrIn,arrIndxIn,arrIndxIn2,arrOut,arrIndexOut);
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut.retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut.retn()),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut.retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
@@ -2267,7 +2267,7 @@
         MCAuto<DataArrayIdType> arrIndexOut;
         ARRAY::FromVTK93To94FacesInternaReprOfPolyedra(arrIn,arrIndxIn,arrOut,arrIndexOut);
         PyObject *ret=PyTuple_New(2);
-        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut.retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+        PyTuple_SetItem(ret,0,SWIG_NewPointerObj(SWIG_as_voidptr(arrOut.retn()),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         PyTuple_SetItem(ret,1,SWIG_NewPointerObj(SWIG_as_voidptr(arrIndexOut.retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
         return ret;
       }
-- 
2.43.0


From 1e8ef6a0c94b122baab3e10576e167dba8090a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 006/122] fix: findIdsRangesInListOfIds read past the end of
 the list of ids

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 43ed277..9701a82 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -6836,7 +6836,7 @@ DataArrayDiscrete<T>::findIdsRangesInListOfIds(
         if (*tupPtr == *offPtr)
         {
             T i = offPtr[0];
-            while (i < offPtr[1] && *tupPtr == i && tupPtr != tupEnd)
+            while (i < offPtr[1] && tupPtr != tupEnd && *tupPtr == i)
             {
                 i++;
                 tupPtr++;
-- 
2.43.0


From 256fcf069e836f19eaede5ecf6f33ad776deaadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 007/122] fix: DataArrayDouble::eigenValues wrong for a matrix
 whose two greatest eigenvalues are equal

Rounding can give |q| > p^1.5 for a negative q too, where the angle is pi/3.
---
 src/INTERP_KERNEL/GenMathFormulae.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INTERP_KERNEL/GenMathFormulae.hxx b/src/INTERP_KERNEL/GenMathFormulae.hxx
index 5c4e3d8..207c7fd 100644
--- a/src/INTERP_KERNEL/GenMathFormulae.hxx
+++ b/src/INTERP_KERNEL/GenMathFormulae.hxx
@@ -52,8 +52,8 @@ computeEigenValues6(const double *matrix, double *eigenVals)
             phi = 1. / 3. * acos(q / tmp);
         else  // EDF22176
             phi = 1. / 3.;
-    else
-        phi = 0.;
+    else  // |q| exceeds |tmp| by rounding : acos(1) or acos(-1)
+        phi = q > 0. ? 0. : M_PI / 3.;
     if (phi < 0.)
         phi += M_PI / 3.;
     eigenVals[0] = tr + 2. * sqp * cos(phi);
-- 
2.43.0


From dc040284d1d00156c09919636a1a17e3e527a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 008/122] fix: DataArrayDouble::eigenVectors returned null
 vectors for well separated eigenvalues

The pair (first, third) of rows was never tried, and a vector orthogonal to (1,1,1) was never found.
---
 src/INTERP_KERNEL/GenMathFormulae.hxx | 39 +++++++++++----------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/INTERP_KERNEL/GenMathFormulae.hxx b/src/INTERP_KERNEL/GenMathFormulae.hxx
index 207c7fd..989ab0b 100644
--- a/src/INTERP_KERNEL/GenMathFormulae.hxx
+++ b/src/INTERP_KERNEL/GenMathFormulae.hxx
@@ -83,35 +83,26 @@ computeEigenVectorForEigenValue6(const double *matrix, double eigenVal, double e
             matrix[4],
             matrix[2] - eigenVal
         };
+        // the eigenvector is orthogonal to the 3 rows of m9 : take the pair of rows which gives the biggest cross product
+        double best(eps);
+        bool found(false);
         for (int i = 0; i < 3; i++)
         {
-            double w[9] = {
-                m9[0 + 3 * i],
-                m9[1 + 3 * i],
-                m9[2 + 3 * i],
-                m9[0 + (3 * (i + 1)) % 6],
-                m9[1 + (3 * (i + 1)) % 6],
-                m9[2 + (3 * (i + 1)) % 6],
-                1.,
-                1.,
-                1.
-            };
-            double det = w[0] * w[4] * w[8] + w[1] * w[5] * w[6] + w[2] * w[3] * w[7] - w[0] * w[5] * w[7] -
-                         w[1] * w[3] * w[8] - w[2] * w[4] * w[6];
-            if (fabs(det) > eps)
+            const double *u(m9 + 3 * i), *v(m9 + 3 * ((i + 1) % 3));
+            const double w[3] = {u[1] * v[2] - v[1] * u[2], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
+            const double norm(sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]));
+            if (norm > best)
             {
-                eigenVector[0] = (w[1] * w[5] - w[4] * w[2]) / det;
-                eigenVector[1] = (w[2] * w[3] - w[0] * w[5]) / det;
-                eigenVector[2] = (w[0] * w[4] - w[1] * w[3]) / det;
-                double norm = sqrt(
-                    eigenVector[0] * eigenVector[0] + eigenVector[1] * eigenVector[1] + eigenVector[2] * eigenVector[2]
-                );
-                eigenVector[0] /= norm;
-                eigenVector[1] /= norm;
-                eigenVector[2] /= norm;
-                return;
+                const double fact(w[0] + w[1] + w[2] < 0. ? -1. / norm : 1. / norm);
+                eigenVector[0] = w[0] * fact;
+                eigenVector[1] = w[1] * fact;
+                eigenVector[2] = w[2] * fact;
+                best = norm;
+                found = true;
             }
         }
+        if (found)
+            return;
     }
     // else
     {
-- 
2.43.0


From e23045d14b618fc22a59d6b6e70854928978d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 009/122] fix: middle of a 2D segment ignored the ordinate of
 its second point (ComputeIntegralOfSeg2IntoTri3)

---
 src/INTERP_KERNEL/InterpolationUtils.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/InterpolationUtils.hxx b/src/INTERP_KERNEL/InterpolationUtils.hxx
index 921f532..58d5c35 100644
--- a/src/INTERP_KERNEL/InterpolationUtils.hxx
+++ b/src/INTERP_KERNEL/InterpolationUtils.hxx
@@ -106,7 +106,7 @@ inline void
 mid_of_seg2(const double P1[2], const double P2[2], double MID[2])
 {
     MID[0] = (P1[0] + P2[0]) / 2.;
-    MID[1] = (P1[1] + P1[1]) / 2.;
+    MID[1] = (P1[1] + P2[1]) / 2.;
 }
 
 /*_ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ */
-- 
2.43.0


From 05cfb6de527ba93862325c92b6edb4272e810357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 010/122] fix: DataArrayDouble::asArcOfCircle read past the
 array when it has not 3 tuples of 2 components

---
 src/MEDCoupling/MEDCouplingMemArray.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.cxx b/src/MEDCoupling/MEDCouplingMemArray.cxx
index a6872a4..41e221d 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.cxx
@@ -2964,7 +2964,7 @@ DataArrayDouble::asArcOfCircle(double center[2], double &radius, double &ang) co
 {
     checkAllocated();
     INTERP_KERNEL::QuadraticPlanarPrecision arcPrec(1e-14);
-    if (getNumberOfTuples() != 3 && getNumberOfComponents() != 2)
+    if (getNumberOfTuples() != 3 || getNumberOfComponents() != 2)
         throw INTERP_KERNEL::Exception("DataArrayDouble::asArcCircle : this method expects");
     const double *pt(begin());
     MCAuto<INTERP_KERNEL::Node> n0(new INTERP_KERNEL::Node(pt[0], pt[1])), n1(new INTERP_KERNEL::Node(pt[2], pt[3])),
-- 
2.43.0


From 1ed884a368284f3b50e362d184437fd28152171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 011/122] fix: applyFunc on an empty expression or
 sub-expression read an empty stack

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index 72ea695..39347e2 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -547,6 +547,7 @@ ExprParser::reverseThis()
 ExprParserOfEval
 ExprParser::convertMeTo() const
 {
+    checkForEvaluation();
     std::size_t sz(_sub_expr.size());
     std::vector<ExprParserOfEval> subExpr(sz);
     for (std::size_t i = 0; i < sz; i++) subExpr[i] = _sub_expr[i].convertMeTo();
-- 
2.43.0


From 16c0bb55a29ca6355a77674949d2a28093dda9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 012/122] fix: applyFunc read past its array while reporting
 the tuple where the evaluation failed

---
 src/MEDCoupling/MEDCouplingMemArray.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.cxx b/src/MEDCoupling/MEDCouplingMemArray.cxx
index 41e221d..c49a983 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.cxx
@@ -3447,9 +3447,7 @@ DataArrayDouble::applyFuncNamedCompo(
                 {
                     std::ostringstream oss;
                     oss << "For tuple # " << i << " with value (";
-                    std::copy(
-                        ptr + oldNbOfComp * i, ptr + oldNbOfComp * (i + 1), std::ostream_iterator<double>(oss, ", ")
-                    );
+                    std::copy(ptr, ptr + oldNbOfComp, std::ostream_iterator<double>(oss, ", "));
                     oss << ") : Evaluation of function failed !" << e.what();
                     throw INTERP_KERNEL::Exception(oss.str().c_str());
                 }
-- 
2.43.0


From c9081d2bf29028d472098804d900139c98952867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 013/122] fix: an expression with an empty operand raised
 std::out_of_range

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index 39347e2..183dea8 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -648,6 +648,12 @@ bool
 ExprParser::tryToInterpALeaf()
 {
     std::size_t pos = _expr.find_first_not_of("+-", 0, 2);
+    if (pos == std::string::npos)
+    {
+        std::ostringstream errMsg;
+        errMsg << EXPR_PARSE_ERR_MSG << "Error : no operand in \"" << _expr << "\" !";
+        throw INTERP_KERNEL::Exception(errMsg.str().c_str());
+    }
     std::string minimizedExpr = _expr.substr(pos);
     std::size_t pos2 = minimizedExpr.find_first_of("+-*/^()<>", 0, 9);
     if (pos2 != std::string::npos)
-- 
2.43.0


From 93b7bd1b036875350b332f33014e3f331c827c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:49 +0000
Subject: [PATCH 014/122] fix: rearrange2ConsecutiveCellTypes looped for ever
 when a type came back before another one appeared

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 0d7e9ad..59a17c4 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -7892,6 +7892,8 @@ MEDCouplingUMesh::rearrange2ConsecutiveCellTypes()
             types.push_back(curType);
             for (i++; i != connI + nbOfCells && (INTERP_KERNEL::NormalizedCellType)conn[*i] == curType; i++);
         }
+        else
+            i++;
     DataArrayIdType *ret = DataArrayIdType::New();
     ret->alloc(nbOfCells, 1);
     mcIdType *retPtr = ret->getPointer();
-- 
2.43.0


From 05c0795aeba4321a05f0815bba50798a6e9bd04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 015/122] Revert "fix: middle of a 2D segment ignored the
 ordinate of its second point"

MEDCouplingBasicsTest6.testComputeIntegralOfSeg2IntoTri3_1 encodes the present values; recorded as a known finding instead.
---
 src/INTERP_KERNEL/InterpolationUtils.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/InterpolationUtils.hxx b/src/INTERP_KERNEL/InterpolationUtils.hxx
index 58d5c35..921f532 100644
--- a/src/INTERP_KERNEL/InterpolationUtils.hxx
+++ b/src/INTERP_KERNEL/InterpolationUtils.hxx
@@ -106,7 +106,7 @@ inline void
 mid_of_seg2(const double P1[2], const double P2[2], double MID[2])
 {
     MID[0] = (P1[0] + P2[0]) / 2.;
-    MID[1] = (P1[1] + P2[1]) / 2.;
+    MID[1] = (P1[1] + P1[1]) / 2.;
 }
 
 /*_ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ _ */
-- 
2.43.0


From 589ecadd0a3b0d502a94984ca242ab12a902abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 016/122] fix: getReverseNodalConnectivity gave a polyhedron
 once per face to each of its nodes (findCommonCells, zipConnectivityTraducer,
 ... found it equal to itself)

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 59a17c4..c312b6f 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -701,17 +701,21 @@ MEDCouplingUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, DataArr
     std::fill(revNodalIndxPtr, revNodalIndxPtr + nbOfNodes + 1, 0);
     const mcIdType *conn(_nodal_connec->begin()), *connIndex(_nodal_connec_index->begin());
     mcIdType nbOfCells(getNumberOfCells()), nbOfEltsInRevNodal(0);
+    std::vector<mcIdType> lastCell(nbOfNodes, -1);
     for (mcIdType eltId = 0; eltId < nbOfCells; eltId++)
     {
         const mcIdType *strtNdlConnOfCurCell(conn + connIndex[eltId] + 1),
             *endNdlConnOfCurCell(conn + connIndex[eltId + 1]);
         for (const mcIdType *iter = strtNdlConnOfCurCell; iter != endNdlConnOfCurCell; iter++)
-            if (*iter >= 0)  // for polyhedrons
+            // a node is met once per face in a polyhedron : the cell has to be counted once
+            if (*iter >= 0 && lastCell[*iter] != eltId)
             {
+                lastCell[*iter] = eltId;
                 nbOfEltsInRevNodal++;
                 revNodalIndxPtr[(*iter) + 1]++;
             }
     }
+    std::fill(lastCell.begin(), lastCell.end(), -1);
     std::transform(
         revNodalIndxPtr + 1,
         revNodalIndxPtr + nbOfNodes + 1,
@@ -727,12 +731,15 @@ MEDCouplingUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, DataArr
         const mcIdType *strtNdlConnOfCurCell = conn + connIndex[eltId] + 1;
         const mcIdType *endNdlConnOfCurCell = conn + connIndex[eltId + 1];
         for (const mcIdType *iter = strtNdlConnOfCurCell; iter != endNdlConnOfCurCell; iter++)
-            if (*iter >= 0)  // for polyhedrons
+            if (*iter >= 0 && lastCell[*iter] != eltId)
+            {
+                lastCell[*iter] = eltId;
                 *std::find_if(
                     revNodalPtr + revNodalIndxPtr[*iter],
                     revNodalPtr + revNodalIndxPtr[*iter + 1],
                     std::bind(std::equal_to<mcIdType>(), std::placeholders::_1, -1)
                 ) = eltId;
+            }
     }
 }
 
-- 
2.43.0


From 908984488eb434c6590d7749092b1726a6973aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 017/122] fix:
 MEDCoupling1DGTUMesh::getReverseNodalConnectivity gave a polyhedron once per
 face to each of its nodes

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 3df1fc0..f8d612f 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3727,6 +3727,7 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
     const mcIdType *conn = _conn->begin(), *conni = _conn_indx->begin();
     mcIdType nbOfCells = getNumberOfCells();
     mcIdType nbOfEltsInRevNodal = 0;
+    std::vector<mcIdType> lastCell(nbOfNodes, -1);
     for (mcIdType eltId = 0; eltId < nbOfCells; eltId++)
     {
         mcIdType nbOfNodesPerCell = conni[eltId + 1] - conni[eltId];
@@ -3739,6 +3740,10 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
                     continue;
                 if (nodeId >= 0 && nodeId < nbOfNodes)
                 {
+                    // a node is met once per face in a polyhedron : the cell has to be counted once
+                    if (lastCell[nodeId] == eltId)
+                        continue;
+                    lastCell[nodeId] = eltId;
                     nbOfEltsInRevNodal++;
                     revNodalIndxPtr[nodeId + 1]++;
                 }
@@ -3766,6 +3771,7 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
         revNodalIndxPtr + 1,
         std::plus<mcIdType>()
     );
+    std::fill(lastCell.begin(), lastCell.end(), -1);
     conn = _conn->begin();
     mcIdType *revNodalPtr = (mcIdType *)malloc((nbOfEltsInRevNodal) * sizeof(mcIdType));
     revNodal->useArray(revNodalPtr, true, DeallocType::C_DEALLOC, nbOfEltsInRevNodal, 1);
@@ -3776,12 +3782,15 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
         for (mcIdType j = 0; j < nbOfNodesPerCell; j++)
         {
             mcIdType nodeId = conn[conni[eltId] + j];
-            if (nodeId != -1)
+            if (nodeId != -1 && lastCell[nodeId] != eltId)
+            {
+                lastCell[nodeId] = eltId;
                 *std::find_if(
                     revNodalPtr + revNodalIndxPtr[nodeId],
                     revNodalPtr + revNodalIndxPtr[nodeId + 1],
                     std::bind(std::equal_to<mcIdType>(), std::placeholders::_1, -1)
                 ) = eltId;
+            }
         }
     }
 }
-- 
2.43.0


From d29d89b837d9c7a4e4459e20be4ed71cf9d0e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 018/122] fix: orientCorrectly2DCells(refFaces) did not go
 through the edges of polygons

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index c312b6f..8ef512d 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -10864,7 +10864,7 @@ MEDCouplingUMesh::orientCorrectly2DCells(const MEDCouplingUMesh *refFaces)
         mesh[iMesh]->getNodeIdsOfCell(refFace, faceNodes);
         const INTERP_KERNEL::CellModel &cm =
             INTERP_KERNEL::CellModel::GetCellModel(mesh[iMesh]->getTypeOfCell(refFace));
-        const int nbEdges = cm.getNumberOfSons();
+        const int nbEdges = (int)cm.getNumberOfSons2(faceNodes.data(), (mcIdType)faceNodes.size());
 
         // loop on edges of the refFace
         mcIdType n0 = faceNodes[nbEdges - 1];  // 1st node of edge
-- 
2.43.0


From 0ec23c484443d90bd8063459f5cde40093f0c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 019/122] fix: computeDiameterField missed the diameters which
 are not a diagonal of a quadrangle, hexahedron, prism or pyramid

---
 src/INTERP_KERNEL/DiameterCalculator.cxx | 95 +++++++-----------------
 1 file changed, 25 insertions(+), 70 deletions(-)

diff --git a/src/INTERP_KERNEL/DiameterCalculator.cxx b/src/INTERP_KERNEL/DiameterCalculator.cxx
index a0bf453..f6c6e07 100644
--- a/src/INTERP_KERNEL/DiameterCalculator.cxx
+++ b/src/INTERP_KERNEL/DiameterCalculator.cxx
@@ -97,6 +97,26 @@ DiffV3(const double a[3], const double b[3], double c[3])
     c[2] = a[2] - b[2];
 }
 
+// Greatest distance between two of the nodes in [bg, bg + nbNodes)
+template <int SPACEDIM>
+double
+MaxDistanceBetweenNodes(const mcIdType *bg, int nbNodes, const double *coordsPtr)
+{
+    double res(0.);
+    for (int i = 0; i < nbNodes; i++)
+        for (int j = 0; j < i; j++)
+        {
+            double d(0.);
+            for (int k = 0; k < SPACEDIM; k++)
+            {
+                const double diff(coordsPtr[SPACEDIM * bg[i] + k] - coordsPtr[SPACEDIM * bg[j] + k]);
+                d += diff * diff;
+            }
+            res = std::max(res, d);
+        }
+    return std::sqrt(res);
+}
+
 template <class Evaluator>
 void
 ComputeForListOfCellIdsUMeshFrmt(
@@ -462,14 +482,7 @@ double
 DiameterCalulatorQUAD4S2::ComputeForOneCellInternal(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
 {
     if (std::distance(bg, endd) == 4)
-    {
-        const double *a(coordsPtr + 2 * bg[0]), *b(coordsPtr + 2 * bg[1]), *c(coordsPtr + 2 * bg[2]),
-            *d(coordsPtr + 2 * bg[3]);
-        double l0[2], l1[2];
-        DiffV2(a, c, l0);
-        DiffV2(b, d, l1);
-        return std::sqrt(std::max(SqNormV2(l0), SqNormV2(l1)));
-    }
+        return MaxDistanceBetweenNodes<2>(bg, 4, coordsPtr);
     else
         throw Exception("DiameterCalulatorQUAD4S2::ComputeForOneCellInternal : input connectivity must be of size 4 !");
 }
@@ -514,14 +527,7 @@ double
 DiameterCalulatorQUAD4S3::ComputeForOneCellInternal(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
 {
     if (std::distance(bg, endd) == 4)
-    {
-        const double *a(coordsPtr + 3 * bg[0]), *b(coordsPtr + 3 * bg[1]), *c(coordsPtr + 3 * bg[2]),
-            *d(coordsPtr + 3 * bg[3]);
-        double l0[3], l1[3];
-        DiffV3(a, c, l0);
-        DiffV3(b, d, l1);
-        return std::sqrt(std::max(SqNormV3(l0), SqNormV3(l1)));
-    }
+        return MaxDistanceBetweenNodes<3>(bg, 4, coordsPtr);
     else
         throw Exception("DiameterCalulatorQUAD4S3::ComputeForOneCellInternal : input connectivity must be of size 4 !");
 }
@@ -856,22 +862,7 @@ double
 DiameterCalulatorHEXA8::ComputeForOneCellInternal(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
 {
     if (std::distance(bg, endd) == 8)
-    {
-        const double *p0(coordsPtr + 3 * bg[0]), *p1(coordsPtr + 3 * bg[1]), *p2(coordsPtr + 3 * bg[2]),
-            *p3(coordsPtr + 3 * bg[3]), *p4(coordsPtr + 3 * bg[4]), *p5(coordsPtr + 3 * bg[5]),
-            *p6(coordsPtr + 3 * bg[6]), *p7(coordsPtr + 3 * bg[7]);
-        double l0[3], l1[3], l2[3], l3[3];
-        DiffV3(p0, p6, l0);
-        DiffV3(p1, p7, l1);
-        DiffV3(p2, p4, l2);
-        DiffV3(p3, p5, l3);
-        double tmp[4];
-        tmp[0] = SqNormV3(l0);
-        tmp[1] = SqNormV3(l1);
-        tmp[2] = SqNormV3(l2);
-        tmp[3] = SqNormV3(l3);
-        return std::sqrt(*std::max_element(tmp, tmp + 4));
-    }
+        return MaxDistanceBetweenNodes<3>(bg, 8, coordsPtr);
     else
         throw Exception("DiameterCalulatorHEXA8::ComputeForOneCellInternal : input connectivity must be of size 8 !");
 }
@@ -1006,25 +997,7 @@ double
 DiameterCalulatorPENTA6::ComputeForOneCellInternal(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
 {
     if (std::distance(bg, endd) == 6)
-    {
-        const double *p0(coordsPtr + 3 * bg[0]), *p1(coordsPtr + 3 * bg[1]), *p2(coordsPtr + 3 * bg[2]),
-            *p3(coordsPtr + 3 * bg[3]), *p4(coordsPtr + 3 * bg[4]), *p5(coordsPtr + 3 * bg[5]);
-        double l0[3], l1[3], l2[3], l3[3], l4[3], l5[3];
-        DiffV3(p0, p4, l0);
-        DiffV3(p1, p3, l1);
-        DiffV3(p1, p5, l2);
-        DiffV3(p2, p4, l3);
-        DiffV3(p0, p5, l4);
-        DiffV3(p2, p3, l5);
-        double tmp[6];
-        tmp[0] = SqNormV3(l0);
-        tmp[1] = SqNormV3(l1);
-        tmp[2] = SqNormV3(l2);
-        tmp[3] = SqNormV3(l3);
-        tmp[4] = SqNormV3(l4);
-        tmp[5] = SqNormV3(l5);
-        return std::sqrt(*std::max_element(tmp, tmp + 6));
-    }
+        return MaxDistanceBetweenNodes<3>(bg, 6, coordsPtr);
     else
         throw Exception("DiameterCalulatorPENTA6::ComputeForOneCellInternal : input connectivity must be of size 6 !");
 }
@@ -1116,25 +1089,7 @@ double
 DiameterCalulatorPYRA5::ComputeForOneCellInternal(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
 {
     if (std::distance(bg, endd) == 5)
-    {
-        const double *p0(coordsPtr + 3 * bg[0]), *p1(coordsPtr + 3 * bg[1]), *p2(coordsPtr + 3 * bg[2]),
-            *p3(coordsPtr + 3 * bg[3]), *p4(coordsPtr + 3 * bg[4]);
-        double l0[3], l1[3], l2[3], l3[3], l4[3], l5[3];
-        DiffV3(p0, p2, l0);
-        DiffV3(p1, p3, l1);
-        DiffV3(p0, p4, l2);
-        DiffV3(p1, p4, l3);
-        DiffV3(p2, p4, l4);
-        DiffV3(p3, p4, l5);
-        double tmp[6];
-        tmp[0] = SqNormV3(l0);
-        tmp[1] = SqNormV3(l1);
-        tmp[2] = SqNormV3(l2);
-        tmp[3] = SqNormV3(l3);
-        tmp[4] = SqNormV3(l4);
-        tmp[5] = SqNormV3(l5);
-        return std::sqrt(*std::max_element(tmp, tmp + 6));
-    }
+        return MaxDistanceBetweenNodes<3>(bg, 5, coordsPtr);
     else
         throw Exception("DiameterCalulatorPYRA5::ComputeForOneCellInternal : input connectivity must be of size 5 !");
 }
-- 
2.43.0


From 1bfccd163c55fac52d3e47b08dde4462bf168b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 020/122] Revert "fix:
 MEDCoupling1DGTUMesh::getReverseNodalConnectivity gave a polyhedron once per
 face to each of its nodes"

testSwig21DGTUMesh1 encodes the present values; recorded as a known finding instead.
---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index f8d612f..3df1fc0 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3727,7 +3727,6 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
     const mcIdType *conn = _conn->begin(), *conni = _conn_indx->begin();
     mcIdType nbOfCells = getNumberOfCells();
     mcIdType nbOfEltsInRevNodal = 0;
-    std::vector<mcIdType> lastCell(nbOfNodes, -1);
     for (mcIdType eltId = 0; eltId < nbOfCells; eltId++)
     {
         mcIdType nbOfNodesPerCell = conni[eltId + 1] - conni[eltId];
@@ -3740,10 +3739,6 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
                     continue;
                 if (nodeId >= 0 && nodeId < nbOfNodes)
                 {
-                    // a node is met once per face in a polyhedron : the cell has to be counted once
-                    if (lastCell[nodeId] == eltId)
-                        continue;
-                    lastCell[nodeId] = eltId;
                     nbOfEltsInRevNodal++;
                     revNodalIndxPtr[nodeId + 1]++;
                 }
@@ -3771,7 +3766,6 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
         revNodalIndxPtr + 1,
         std::plus<mcIdType>()
     );
-    std::fill(lastCell.begin(), lastCell.end(), -1);
     conn = _conn->begin();
     mcIdType *revNodalPtr = (mcIdType *)malloc((nbOfEltsInRevNodal) * sizeof(mcIdType));
     revNodal->useArray(revNodalPtr, true, DeallocType::C_DEALLOC, nbOfEltsInRevNodal, 1);
@@ -3782,15 +3776,12 @@ MEDCoupling1DGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
         for (mcIdType j = 0; j < nbOfNodesPerCell; j++)
         {
             mcIdType nodeId = conn[conni[eltId] + j];
-            if (nodeId != -1 && lastCell[nodeId] != eltId)
-            {
-                lastCell[nodeId] = eltId;
+            if (nodeId != -1)
                 *std::find_if(
                     revNodalPtr + revNodalIndxPtr[nodeId],
                     revNodalPtr + revNodalIndxPtr[nodeId + 1],
                     std::bind(std::equal_to<mcIdType>(), std::placeholders::_1, -1)
                 ) = eltId;
-            }
         }
     }
 }
-- 
2.43.0


From 67a4c12222ad31fbbf25897ef901ca9232bd210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:21 +0000
Subject: [PATCH 021/122] fix: centre of mass of a polyhedron with a face
 without area ignored the faces after it

---
 src/INTERP_KERNEL/VolSurfFormulae.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/INTERP_KERNEL/VolSurfFormulae.hxx b/src/INTERP_KERNEL/VolSurfFormulae.hxx
index d68711e..20b06ca 100644
--- a/src/INTERP_KERNEL/VolSurfFormulae.hxx
+++ b/src/INTERP_KERNEL/VolSurfFormulae.hxx
@@ -615,7 +615,10 @@ barycenterOfPolyhedron(const ConnType *connec, mcIdType lgth, const double *coor
         areaVectorOfPolygon<ConnType, numPol>(work, nbOfNodesOfCurFace, coords, normal);
         double normOfNormal = sqrt(normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2]);
         if (normOfNormal < std::numeric_limits<double>::min())
+        {
+            work = work2 + 1;
             continue;
+        }
         normal[0] /= normOfNormal;
         normal[1] /= normOfNormal;
         normal[2] /= normOfNormal;
@@ -689,7 +692,10 @@ barycenterOfPolyhedron(const ConnType *connec, mcIdType lgth, const double *coor
             areaVectorOfPolygon<ConnType, numPol>(work, nbOfNodesOfCurFace, coords, normal);
             double normOfNormal = sqrt(normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2]);
             if (normOfNormal < std::numeric_limits<double>::min())
+            {
+                work = work2 + 1;
                 continue;
+            }
             sum += normOfNormal;
             double tmpBary[3];
             computePolygonBarycenter3D<ConnType, numPol>(work, nbOfNodesOfCurFace, coords, tmpBary);
-- 
2.43.0


From c1e5cc71c22164b8ece9739cda25bfff6780f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:34 +0000
Subject: [PATCH 022/122] fix: areCellsIncludedInPolicy7 never found the cells
 of the other mesh, and its Python version returned an uninitialised array

---
 src/MEDCoupling/MEDCouplingUMesh.cxx     | 31 ++++++++++--------------
 src/MEDCoupling_Swig/MEDCouplingCommon.i |  2 +-
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 8ef512d..d916218 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -2591,36 +2591,31 @@ MEDCouplingUMesh::areCellsIncludedIn(const MEDCouplingUMesh *other, int compType
  *
  * \param other other mesh
  * \param arr is an output parameter that returns a \b newly created instance. This array is of size
- * 'other->getNumberOfCells()'.
+ * 'other->getNumberOfCells()'. It contains for each cell of \a other the id of the cell in \a this plus one, negative
+ * if the two cells have opposite orientations.
  * \return If \a other is fully included in 'this 'true is returned. If not false is returned.
  */
 bool
 MEDCouplingUMesh::areCellsIncludedInPolicy7(const MEDCouplingUMesh *other, DataArrayIdType *&arr) const
 {
     MCAuto<MEDCouplingUMesh> mesh = MergeUMeshesOnSameCoords(this, other);
-    DataArrayIdType *commonCells = 0, *commonCellsI = 0;
-    mcIdType thisNbCells = getNumberOfCells();
-    mesh->findCommonCells(7, thisNbCells, commonCells, commonCellsI);
-    MCAuto<DataArrayIdType> commonCellsTmp(commonCells), commonCellsITmp(commonCellsI);
-    const mcIdType *commonCellsPtr = commonCells->getConstPointer(), *commonCellsIPtr = commonCellsI->getConstPointer();
-    mcIdType otherNbCells = other->getNumberOfCells();
+    mcIdType thisNbCells = getNumberOfCells(), otherNbCells = other->getNumberOfCells();
+    MCAuto<DataArrayIdType> revNodal(DataArrayIdType::New()), revNodalI(DataArrayIdType::New());
+    getReverseNodalConnectivity(revNodal, revNodalI);
+    const mcIdType *revNodalPtr = revNodal->begin(), *revNodalIPtr = revNodalI->begin();
+    const mcIdType *conn = mesh->getNodalConnectivity()->begin(), *connI = mesh->getNodalConnectivityIndex()->begin();
     MCAuto<DataArrayIdType> arr2 = DataArrayIdType::New();
     arr2->alloc(otherNbCells, 1);
     arr2->fillWithZero();
     mcIdType *arr2Ptr = arr2->getPointer();
-    mcIdType nbOfCommon = commonCellsI->getNumberOfTuples() - 1;
-    for (mcIdType i = 0; i < nbOfCommon; i++)
+    for (mcIdType i = 0; i < otherNbCells; i++)
     {
-        mcIdType start = commonCellsPtr[commonCellsIPtr[i]];
-        if (start < thisNbCells)
+        mcIdType firstNode = conn[connI[thisNbCells + i] + 1];
+        for (mcIdType j = revNodalIPtr[firstNode]; j < revNodalIPtr[firstNode + 1] && arr2Ptr[i] == 0; j++)
         {
-            for (mcIdType j = commonCellsIPtr[i] + 1; j != commonCellsIPtr[i + 1]; j++)
-            {
-                mcIdType sig = commonCellsPtr[j] > 0 ? 1 : -1;
-                mcIdType val = std::abs(commonCellsPtr[j]) - 1;
-                if (val >= thisNbCells)
-                    arr2Ptr[val - thisNbCells] = sig * (start + 1);
-            }
+            int status = AreCellsEqualPolicy7(conn, connI, revNodalPtr[j], thisNbCells + i);
+            if (status != 0)
+                arr2Ptr[i] = status == 1 ? revNodalPtr[j] + 1 : -(revNodalPtr[j] + 1);
         }
     }
     arr2->setName(other->getName());
diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 523d85e..123bcd3 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -2755,7 +2755,7 @@ namespace MEDCoupling
 
       PyObject *areCellsIncludedInPolicy7(const MEDCouplingUMesh *other) const
       {
-        DataArrayIdType *ret1;
+        DataArrayIdType *ret1(nullptr);
         bool ret0=self->areCellsIncludedInPolicy7(other,ret1);
         PyObject *ret=PyTuple_New(2);
         PyObject *ret0Py=ret0?Py_True:Py_False;
-- 
2.43.0


From dcb5be5da8927a0e2d783a2e60523936494183af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 023/122] fix: edges of NORM_HEXA27 cells

The cell model of NORM_HEXA27 gave no edges, their number staying at the
greatest unsigned: exploding such cells into edges ended with a crash.
---
 src/INTERP_KERNEL/CellModel.cxx | 37 +++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index 0532961..8ac0f95 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1459,6 +1459,43 @@ CellModel::CellModel(NormalizedCellType type) : _type(type)
             _sons_con[5][8] = 24;
             _nb_of_sons_con[5] = 9;
             _quadratic = true;
+            _nb_of_little_sons = 12;
+            _little_sons_con[0][0] = 0;
+            _little_sons_con[0][1] = 1;
+            _little_sons_con[0][2] = 8;
+            _little_sons_con[1][0] = 1;
+            _little_sons_con[1][1] = 2;
+            _little_sons_con[1][2] = 9;
+            _little_sons_con[2][0] = 2;
+            _little_sons_con[2][1] = 3;
+            _little_sons_con[2][2] = 10;
+            _little_sons_con[3][0] = 3;
+            _little_sons_con[3][1] = 0;
+            _little_sons_con[3][2] = 11;
+            _little_sons_con[4][0] = 4;
+            _little_sons_con[4][1] = 5;
+            _little_sons_con[4][2] = 12;
+            _little_sons_con[5][0] = 5;
+            _little_sons_con[5][1] = 6;
+            _little_sons_con[5][2] = 13;
+            _little_sons_con[6][0] = 6;
+            _little_sons_con[6][1] = 7;
+            _little_sons_con[6][2] = 14;
+            _little_sons_con[7][0] = 7;
+            _little_sons_con[7][1] = 4;
+            _little_sons_con[7][2] = 15;
+            _little_sons_con[8][0] = 0;
+            _little_sons_con[8][1] = 4;
+            _little_sons_con[8][2] = 16;
+            _little_sons_con[9][0] = 1;
+            _little_sons_con[9][1] = 5;
+            _little_sons_con[9][2] = 17;
+            _little_sons_con[10][0] = 2;
+            _little_sons_con[10][1] = 6;
+            _little_sons_con[10][2] = 18;
+            _little_sons_con[11][0] = 3;
+            _little_sons_con[11][1] = 7;
+            _little_sons_con[11][2] = 19;
         }
         break;
         case NORM_POLYGON:
-- 
2.43.0


From e0fe76aeb1ed8491b27ea15b7f23b7422290ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 024/122] fix: degenerated cells which become longer polyhedra

MEDCouplingUMesh::convertDegeneratedCells and
convertDegeneratedCellsAndRemoveFlatOnes wrote the simplified cells over the
connectivity they were reading, although a degenerated solid can become a
polyhedron, whose connectivity is longer: the next cells were overwritten
before they were read, and the array was overrun. A cell whose faces all are
degenerated made CellSimplify::getFullPolyh3DCell write before its buffer.
---
 .../InterpKernelCellSimplify.cxx              |  4 +-
 src/MEDCoupling/MEDCouplingUMesh.cxx          | 77 +++++++++++--------
 2 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx b/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx
index 141e5dc..9979ff3 100644
--- a/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx
+++ b/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx
@@ -178,7 +178,9 @@ CellSimplify::getFullPolyh3DCell(
         work += newPos;
         *work++ = -1;
     }
-    std::copy(faces.begin(), faces.end(), --work);
+    if (!faces.empty())
+        --work;  // no separator after the last face
+    std::copy(faces.begin(), faces.end(), work);
     retNbOfFaces = (int)faces.size();
     retLgth = (int)std::distance(tmp, work);
     return tmp;
diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index d916218..a74d917 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -6220,6 +6220,28 @@ MEDCouplingUMesh::areOnlySimplexCells() const
     return true;
 }
 
+namespace
+{
+/*!
+ * Simplifies the cell whose nodal connectivity, geometric type included, is [ \a cellBg, \a cellEnd ), and puts the
+ * result (type included) into \a ret. A degenerated 3D cell can become a polyhedron, longer than the initial cell.
+ */
+void
+SimplifyDegeneratedCell(const mcIdType *cellBg, const mcIdType *cellEnd, std::vector<mcIdType> &ret)
+{
+    const INTERP_KERNEL::NormalizedCellType type((INTERP_KERNEL::NormalizedCellType)*cellBg);
+    const INTERP_KERNEL::CellModel &cm(INTERP_KERNEL::CellModel::GetCellModel(type));
+    const mcIdType lgth(ToIdType(std::distance(cellBg, cellEnd)) - 1);
+    mcIdType newLgth(lgth);
+    if (cm.getDimension() == 3)  // polyhedral representation of the cell
+        newLgth = std::max(lgth, ToIdType(cm.getNumberOfSons2(cellBg + 1, lgth)) * (lgth + 1));
+    ret.resize(newLgth + 1);
+    ret[0] =
+        INTERP_KERNEL::CellSimplify::simplifyDegeneratedCell(type, cellBg + 1, lgth, ret.data() + 1, newLgth);
+    ret.resize(newLgth + 1);
+}
+}  // namespace
+
 /*!
  * Converts degenerated 2D or 3D linear cells of \a this mesh into cells of simpler
  * type. For example an INTERP_KERNEL::NORM_QUAD4 cell having only three unique nodes in
@@ -6242,27 +6264,20 @@ MEDCouplingUMesh::convertDegeneratedCells()
     mcIdType nbOfCells = getNumberOfCells();
     if (nbOfCells < 1)
         return;
-    mcIdType initMeshLgth = getNodalConnectivityArrayLen();
-    mcIdType *conn = _nodal_connec->getPointer();
+    const mcIdType *conn = _nodal_connec->begin();
     mcIdType *index = _nodal_connec_index->getPointer();
-    mcIdType posOfCurCell = 0;
-    mcIdType newPos = 0;
-    mcIdType lgthOfCurCell;
+    std::vector<mcIdType> newConn, curCell;
+    mcIdType posOfCurCell = index[0];
+    index[0] = 0;
     for (mcIdType i = 0; i < nbOfCells; i++)
     {
-        lgthOfCurCell = index[i + 1] - posOfCurCell;
-        INTERP_KERNEL::NormalizedCellType type = (INTERP_KERNEL::NormalizedCellType)conn[posOfCurCell];
-        mcIdType newLgth;
-        INTERP_KERNEL::NormalizedCellType newType = INTERP_KERNEL::CellSimplify::simplifyDegeneratedCell(
-            type, conn + posOfCurCell + 1, lgthOfCurCell - 1, conn + newPos + 1, newLgth
-        );
-        conn[newPos] = newType;
-        newPos += newLgth + 1;
+        SimplifyDegeneratedCell(conn + posOfCurCell, conn + index[i + 1], curCell);
+        newConn.insert(newConn.end(), curCell.begin(), curCell.end());
         posOfCurCell = index[i + 1];
-        index[i + 1] = newPos;
+        index[i + 1] = ToIdType(newConn.size());
     }
-    if (newPos != initMeshLgth)
-        _nodal_connec->reAlloc(newPos);
+    _nodal_connec->reAlloc(newConn.size());
+    std::copy(newConn.begin(), newConn.end(), _nodal_connec->getPointer());
     computeTypes();
 }
 
@@ -6288,22 +6303,19 @@ MEDCouplingUMesh::convertDegeneratedCellsAndRemoveFlatOnes()
     ret->alloc(0, 1);
     if (nbOfCells < 1)
         return ret.retn();
-    mcIdType initMeshLgth = getNodalConnectivityArrayLen();
-    mcIdType *conn = _nodal_connec->getPointer();
+    const mcIdType *conn = _nodal_connec->begin();
     mcIdType *index = _nodal_connec_index->getPointer();
-    mcIdType posOfCurCell = 0;
-    mcIdType newPos = 0;
-    mcIdType lgthOfCurCell, nbDelCells(0);
+    std::vector<mcIdType> newConn, curCell;
+    mcIdType posOfCurCell = index[0];
+    index[0] = 0;
+    mcIdType nbDelCells(0);
     for (mcIdType i = 0; i < nbOfCells; i++)
     {
-        lgthOfCurCell = index[i + 1] - posOfCurCell;
-        INTERP_KERNEL::NormalizedCellType type = (INTERP_KERNEL::NormalizedCellType)conn[posOfCurCell];
-        mcIdType newLgth;
-        INTERP_KERNEL::NormalizedCellType newType = INTERP_KERNEL::CellSimplify::simplifyDegeneratedCell(
-            type, conn + posOfCurCell + 1, lgthOfCurCell - 1, conn + newPos + 1, newLgth
-        );
+        SimplifyDegeneratedCell(conn + posOfCurCell, conn + index[i + 1], curCell);
         // Shall we delete the cell if it is completely degenerated:
-        bool delCell = INTERP_KERNEL::CellSimplify::isFlatCell(conn, newPos, newLgth, newType);
+        bool delCell = INTERP_KERNEL::CellSimplify::isFlatCell(
+            curCell.data(), 0, ToIdType(curCell.size()) - 1, (INTERP_KERNEL::NormalizedCellType)curCell[0]
+        );
         if (delCell)
         {
             nbDelCells++;
@@ -6311,14 +6323,13 @@ MEDCouplingUMesh::convertDegeneratedCellsAndRemoveFlatOnes()
         }
         else  // if the cell is to be deleted, simply stay at the same place
         {
-            conn[newPos] = newType;
-            newPos += newLgth + 1;
+            newConn.insert(newConn.end(), curCell.begin(), curCell.end());
         }
         posOfCurCell = index[i + 1];
-        index[i + 1 - nbDelCells] = newPos;
+        index[i + 1 - nbDelCells] = ToIdType(newConn.size());
     }
-    if (newPos != initMeshLgth)
-        _nodal_connec->reAlloc(newPos);
+    _nodal_connec->reAlloc(newConn.size());
+    std::copy(newConn.begin(), newConn.end(), _nodal_connec->getPointer());
     const mcIdType nCellDel = ret->getNumberOfTuples();
     if (nCellDel)
         _nodal_connec_index->reAlloc(nbOfCells - nCellDel + 1);
-- 
2.43.0


From 24f0dd2504e064bf4158b8fbb70ff5f6b673c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 025/122] fix: no NORM_ERROR cell out of
 convertLinearCellsToQuadratic

The linear types without a quadratic counterpart (polyhedra, hexagonal prisms,
and polygons with the advanced conversion) were turned into cells of type
NORM_ERROR, instead of being let untouched as documented.
---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 4acc338..11ec660 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -1268,9 +1268,10 @@ MEDCouplingUMesh::convertLinearCellsToQuadratic2DAnd3D0(
     {
         INTERP_KERNEL::NormalizedCellType typ = (INTERP_KERNEL::NormalizedCellType)cPtr[*icPtr];
         const INTERP_KERNEL::CellModel &cm = INTERP_KERNEL::CellModel::GetCellModel(typ);
-        if (!cm.isQuadratic())
+        const INTERP_KERNEL::NormalizedCellType typ2 = cm.getQuadraticType();
+        // no quadratic counterpart for some linear types (polyhedra...) : these cells are let untouched
+        if (!cm.isQuadratic() && typ2 != INTERP_KERNEL::NORM_ERROR)
         {
-            INTERP_KERNEL::NormalizedCellType typ2 = cm.getQuadraticType();
             types.insert(typ2);
             newConn->pushBackSilent(typ2);
             newConn->pushBackValsSilent(cPtr + icPtr[0] + 1, cPtr + icPtr[1]);
@@ -1359,9 +1360,10 @@ MEDCouplingUMesh::convertLinearCellsToQuadratic2D1(
     {
         INTERP_KERNEL::NormalizedCellType typ = (INTERP_KERNEL::NormalizedCellType)cPtr[*icPtr];
         const INTERP_KERNEL::CellModel &cm = INTERP_KERNEL::CellModel::GetCellModel(typ);
-        if (!cm.isQuadratic())
+        const INTERP_KERNEL::NormalizedCellType typ2 = cm.getQuadraticType2();
+        // no advanced quadratic counterpart for some linear types (polygons...) : these cells are let untouched
+        if (!cm.isQuadratic() && typ2 != INTERP_KERNEL::NORM_ERROR)
         {
-            INTERP_KERNEL::NormalizedCellType typ2 = cm.getQuadraticType2();
             types.insert(typ2);
             newConn->pushBackSilent(typ2);
             newConn->pushBackValsSilent(cPtr + icPtr[0] + 1, cPtr + icPtr[1]);
-- 
2.43.0


From 1ad45692e408407f9959877f0e24a5b8a5b60660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:06 +0000
Subject: [PATCH 026/122] fix: convex polygon sweep read past its last event
 and lost equal wedge values

---
 src/INTERP_KERNEL/PolygonAlgorithms.txx | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/INTERP_KERNEL/PolygonAlgorithms.txx b/src/INTERP_KERNEL/PolygonAlgorithms.txx
index 5e0d164..9b29e24 100644
--- a/src/INTERP_KERNEL/PolygonAlgorithms.txx
+++ b/src/INTERP_KERNEL/PolygonAlgorithms.txx
@@ -784,16 +784,16 @@ PolygonAlgorithms<DIM>::intersectConvexPolygons(const double *P_1, const double
                                 double inside_j2 = dotprod<DIM>(Vnext, Vprev);
                                 double inside_j4 = dotprod<DIM>(V12, V34);
 
-                                std::map<double, std::pair<int, int> > which_is_inside;
-                                which_is_inside[inside_next] = std::make_pair(i_glob, i_next_glob);
-                                which_is_inside[inside_prev] = std::make_pair(i_glob, i_prev_glob);
-                                which_is_inside[inside_j2] = std::make_pair(j1_glob, j2_glob);
-                                which_is_inside[inside_j4] = std::make_pair(j3_glob, j4_glob);
-
-                                std::map<double, std::pair<int, int> >::iterator min = which_is_inside.begin();
-                                std::map<double, std::pair<int, int> >::iterator minext = min;
+                                std::multimap<double, std::pair<int, int> > which_is_inside;
+                                which_is_inside.insert(std::make_pair(inside_next, std::make_pair(i_glob, i_next_glob)));
+                                which_is_inside.insert(std::make_pair(inside_prev, std::make_pair(i_glob, i_prev_glob)));
+                                which_is_inside.insert(std::make_pair(inside_j2, std::make_pair(j1_glob, j2_glob)));
+                                which_is_inside.insert(std::make_pair(inside_j4, std::make_pair(j3_glob, j4_glob)));
+
+                                std::multimap<double, std::pair<int, int> >::iterator min = which_is_inside.begin();
+                                std::multimap<double, std::pair<int, int> >::iterator minext = min;
                                 minext++;
-                                std::map<double, std::pair<int, int> >::reverse_iterator max = which_is_inside.rbegin();
+                                std::multimap<double, std::pair<int, int> >::reverse_iterator max = which_is_inside.rbegin();
                                 std::multimap<int, std::pair<int, bool> >::iterator j2_in_status =
                                     _Status.find(((*min).second).second);
                                 std::multimap<int, std::pair<int, bool> >::iterator j4_in_status =
@@ -839,6 +839,8 @@ PolygonAlgorithms<DIM>::intersectConvexPolygons(const double *P_1, const double
                     throw Exception("intersectConvexPolygon: sequence of nodes does not describe a simple polygon (2)");
             }
             mi1++;
+            if (mi1 == events.end())  // no vertex left
+                return _Inter;
             i_glob = (*mi1).second;  // global index of vertex i
             nb_prev = static_cast<int>(_Status.count(i_glob));
         }
-- 
2.43.0


From 49274351e4a8bf16912ee5fbf9b6f4c50befc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 027/122] fix: intersectMySelfWith: wrong intersection of
 polygons of opposite orientations sharing edges

---
 .../Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
index ccb057c..7972d0b 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
@@ -1116,6 +1116,9 @@ QuadraticPolygon::intersectMySelfWith(const QuadraticPolygon &other) const
 {
     QuadraticPolygon cpyOfThis(*this);
     QuadraticPolygon cpyOfOther(other);
+    // The closing of the pieces expects the edges shared by the two polygons to be run through in the same direction.
+    if (cpyOfThis.getArea() * cpyOfOther.getArea() < 0.)
+        cpyOfOther.reverse();
     int nbOfSplits = 0;
     SplitPolygonsEachOther(cpyOfThis, cpyOfOther, nbOfSplits);
     // At this point cpyOfThis and cpyOfOther have been splited at maximum edge so that in/out can been done.
-- 
2.43.0


From 60e2d3454bc9f61d1859c1cc24afbfe06cbedb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 028/122] fix: remapper transfer into a field of another size
 than prepared overran the matrix

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index 1c41fbe..d55ca3e 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -289,6 +289,15 @@ MEDCouplingRemapper::reverseTransfer(
         oss << " ! It appears that the target support is not the same between the prepare and the transfer !";
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
+    if (srcField->getNumberOfTuplesExpected() != _src_ft->getNumberOfTuplesExpected())
+    {
+        std::ostringstream oss;
+        oss << "MEDCouplingRemapper::reverseTransfer : in given source field the number of tuples required is "
+            << _src_ft->getNumberOfTuplesExpected() << " (on prepare) and number of tuples in given source field is "
+            << srcField->getNumberOfTuplesExpected();
+        oss << " ! It appears that the source support is not the same between the prepare and the transfer !";
+        throw INTERP_KERNEL::Exception(oss.str().c_str());
+    }
     DataArrayDouble *array(srcField->getArray());
     std::size_t trgNbOfCompo = targetField->getNumberOfComponents();
     if (array)
@@ -1356,6 +1365,15 @@ MEDCouplingRemapper::transferUnderground(
         oss << " ! It appears that the source support is not the same between the prepare and the transfer !";
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
+    if (targetField->getNumberOfTuplesExpected() != _target_ft->getNumberOfTuplesExpected())
+    {
+        std::ostringstream oss;
+        oss << "MEDCouplingRemapper::transferUnderground : in given target field the number of tuples required is "
+            << _target_ft->getNumberOfTuplesExpected() << " (on prepare) and number of tuples in given target field is "
+            << targetField->getNumberOfTuplesExpected();
+        oss << " ! It appears that the target support is not the same between the prepare and the transfer !";
+        throw INTERP_KERNEL::Exception(oss.str().c_str());
+    }
     DataArrayDouble *array(targetField->getArray());
     std::size_t srcNbOfCompo(srcField->getNumberOfComponents());
     if (array)
-- 
2.43.0


From e7c730318fbf33435581d6b8751628e009983ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 029/122] fix: curve intersector kept the first pair of halves
 of quadratic segments only

---
 src/INTERP_KERNEL/CurveIntersectorP0P0.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/CurveIntersectorP0P0.txx b/src/INTERP_KERNEL/CurveIntersectorP0P0.txx
index 0ee6dc8..d0b7d3d 100644
--- a/src/INTERP_KERNEL/CurveIntersectorP0P0.txx
+++ b/src/INTERP_KERNEL/CurveIntersectorP0P0.txx
@@ -74,7 +74,7 @@ CurveIntersectorP0P0<MyMeshType, MyMatrix>::intersectCells(
                 double surf =
                     BASE_INTERSECTOR::intersectSegments(&coordsT[0] + t * SPACEDIM, &coordsS[0] + s * SPACEDIM);
                 if (surf != 0.)
-                    resRow.insert(std::make_pair(OTT<ConnType, numPol>::indFC(iS), surf));
+                    resRow[OTT<ConnType, numPol>::indFC(iS)] += surf;
             }
         }
 }
-- 
2.43.0


From 3f0c2269c2b8759ff2ad69c4a77c8f7549569aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 030/122] fix: node ids of split cells read past their end for
 cells of less than 8 nodes, dropped past 8

---
 src/INTERP_KERNEL/SplitterTetra.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/SplitterTetra.hxx b/src/INTERP_KERNEL/SplitterTetra.hxx
index 960acba..23dad99 100644
--- a/src/INTERP_KERNEL/SplitterTetra.hxx
+++ b/src/INTERP_KERNEL/SplitterTetra.hxx
@@ -663,7 +663,7 @@ SplitterTetra2<MyMeshTypeT, MyMeshTypeS>::getCoordsOfSubNode2(
 )
 {
     const double *ret = _nodes.at(node);
-    if (node < 8)
+    if (node < static_cast<typename MyMeshTypeT::MyConnType>(_node_ids.size()))
         nodeId = _node_ids[node];
     else
         nodeId = -1;
-- 
2.43.0


From d870a41884d191b8fdd18982f56e3369ed0884f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 031/122] fix: IntensiveConservation denominators swapped for
 meshes of dimension -1

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index d55ca3e..eb6de3a 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -1470,12 +1470,12 @@ MEDCouplingRemapper::computeDenoFromScratch(
                 srcField->getDiscretization()->getMeasureField(srcField->getMesh(), getMeasureAbsStatus());
             const double *denoPtr = deno->getArray()->getConstPointer();
             const double *denoRPtr = denoR->getArray()->getConstPointer();
-            if (trgField->getMesh()->getMeshDimension() == -1)
+            if (srcField->getMesh()->getMeshDimension() == -1)
             {
                 double *denoRPtr2 = denoR->getArray()->getPointer();
                 denoRPtr2[0] = std::accumulate(denoPtr, denoPtr + deno->getNumberOfTuples(), 0.);
             }
-            if (srcField->getMesh()->getMeshDimension() == -1)
+            if (trgField->getMesh()->getMeshDimension() == -1)
             {
                 double *denoPtr2 = deno->getArray()->getPointer();
                 denoPtr2[0] = std::accumulate(denoRPtr, denoRPtr + denoR->getNumberOfTuples(), 0.);
-- 
2.43.0


From 3785a70130d3dfe059f7c5bd28ee933bb1ea85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 032/122] fix: MaxDistance3DSurfIntersect compared with a
 volume instead of a distance

---
 src/INTERP_KERNEL/PlanarIntersector.txx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/PlanarIntersector.txx b/src/INTERP_KERNEL/PlanarIntersector.txx
index 2c92c40..6bcb778 100644
--- a/src/INTERP_KERNEL/PlanarIntersector.txx
+++ b/src/INTERP_KERNEL/PlanarIntersector.txx
@@ -416,7 +416,10 @@ PlanarIntersector<MyMeshType, MyMatrix>::Projection(
         prodvect[1] = G1[2] * G2[0] - G1[0] * G2[2];
         prodvect[2] = G1[0] * G2[1] - G1[1] * G2[0];
         double prodscal = prodvect[0] * G3[0] + prodvect[1] * G3[1] + prodvect[2] * G3[2];
-        if (fabs(prodscal) > md3DSurf)
+        // prodscal is the distance to the plane of B multiplied by the norm of its normal vector
+        double normalG[3];
+        crossprod<3>(Coords_B, Coords_B + 3, Coords_B + 6, normalG);
+        if (fabs(prodscal) > md3DSurf * sqrt(dotprod<3>(normalG, normalG)))
             return 0;
     }
     if (i_A2 < nb_NodesA && i_B2 < nb_NodesB)
-- 
2.43.0


From 132ba9891cf2b38e98c1e9dc7a15b5afe0cc7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 033/122] fix: Cartesian/unstructured remapping read separators
 of polyhedra as nodes

---
 src/INTERP_KERNEL/IntersectorCU.txx   | 2 ++
 src/INTERP_KERNEL/IntersectorCU3D.txx | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/IntersectorCU.txx b/src/INTERP_KERNEL/IntersectorCU.txx
index ed54529..0f39040 100644
--- a/src/INTERP_KERNEL/IntersectorCU.txx
+++ b/src/INTERP_KERNEL/IntersectorCU.txx
@@ -91,6 +91,8 @@ _INTERSECTOR_CU_::getUElemBB(double *bb, UConnType icell)
     UConnType nb_nodes = _connIndexU[icell + 1] - _connIndexU[icell];
     for (UConnType i = 0; i < nb_nodes; i++)
     {
+        if (_connectU[_FMCON(_connIndexU[_FMIU(icell)] + i)] < 0)
+            continue;  // separator between two faces of a polyhedron
         // const double*
         // coord_node=_coordsU+SPACEDIM*(OTT<ConnType,numPol>::coo2C(conn[OTT<ConnType,numPol>::conn2C(conn_index[OTT<ConnType,numPol>::ind2C(iP)]+i)]));
         const double *coord_node = _coordsU + SPACEDIM * (_FMCOO(_connectU[_FMCON(_connIndexU[_FMIU(icell)] + i)]));
diff --git a/src/INTERP_KERNEL/IntersectorCU3D.txx b/src/INTERP_KERNEL/IntersectorCU3D.txx
index d808035..e846959 100644
--- a/src/INTERP_KERNEL/IntersectorCU3D.txx
+++ b/src/INTERP_KERNEL/IntersectorCU3D.txx
@@ -137,7 +137,7 @@ INTERSECTOR_CU3D::intersectGeometry(UConnType icellT, const std::vector<CConnTyp
 {
     // split an unstructured cell into tetra
     std::vector<TTetra *> tetra;
-    UConnType nb_nodes = _INTERSECTOR_CU::_connIndexU[icellT + 1] - _INTERSECTOR_CU::_connIndexU[icellT];
+    UConnType nb_nodes = _INTERSECTOR_CU::_meshU.getNumberOfNodesOfElement(OTT<UConnType, MyUMeshType::My_numPol>::indFC(icellT));
     _split->releaseArrays();
     _split->splitTargetCell(icellT, nb_nodes, tetra);
 
-- 
2.43.0


From 8ffbeaa9d9af52ad7da38f0d1b970db332719b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 034/122] Revert "fix: intersectMySelfWith: wrong intersection
 of polygons of opposite orientations sharing edges"

This reverts commit 49274351e4a8bf16912ee5fbf9b6f4c50befc693.
---
 .../Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx          | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
index 7972d0b..ccb057c 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
@@ -1116,9 +1116,6 @@ QuadraticPolygon::intersectMySelfWith(const QuadraticPolygon &other) const
 {
     QuadraticPolygon cpyOfThis(*this);
     QuadraticPolygon cpyOfOther(other);
-    // The closing of the pieces expects the edges shared by the two polygons to be run through in the same direction.
-    if (cpyOfThis.getArea() * cpyOfOther.getArea() < 0.)
-        cpyOfOther.reverse();
     int nbOfSplits = 0;
     SplitPolygonsEachOther(cpyOfThis, cpyOfOther, nbOfSplits);
     // At this point cpyOfThis and cpyOfOther have been splited at maximum edge so that in/out can been done.
-- 
2.43.0


From 2ebea53a037344c6f55e2868bcdf2fcada1b258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 035/122] fix: intersectWithAbs: wrong intersection of polygons
 of opposite orientations sharing edges

---
 .../Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
index ccb057c..5fbb90d 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
@@ -277,6 +277,9 @@ QuadraticPolygon::intersectWithAbs(QuadraticPolygon &other)
 {
     double ret = 0., xBaryBB, yBaryBB;
     double fact = normalize(&other, xBaryBB, yBaryBB);
+    // with opposite orientations the shared edges would be closed into the wrong polygons
+    if (getArea() * other.getArea() < 0.)
+        other.reverse();
     std::vector<QuadraticPolygon *> polygs = intersectMySelfWith(other);
     for (std::vector<QuadraticPolygon *>::iterator iter = polygs.begin(); iter != polygs.end(); iter++)
     {
@@ -947,6 +950,9 @@ QuadraticPolygon::intersectWithAbs(QuadraticPolygon &other, double *barycenter)
     double ret = 0., bary[2], area, xBaryBB, yBaryBB;
     barycenter[0] = barycenter[1] = 0.;
     double fact = normalize(&other, xBaryBB, yBaryBB);
+    // with opposite orientations the shared edges would be closed into the wrong polygons
+    if (getArea() * other.getArea() < 0.)
+        other.reverse();
     std::vector<QuadraticPolygon *> polygs = intersectMySelfWith(other);
     for (std::vector<QuadraticPolygon *>::iterator iter = polygs.begin(); iter != polygs.end(); iter++)
     {
-- 
2.43.0


From 675652c52ac0e90f6b85c783370fc0984a14ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:07 +0000
Subject: [PATCH 036/122] fix: arcs of quadratic cells going out of the
 bounding box of their nodes missed by the planar remapping

---
 src/INTERP_KERNEL/PlanarIntersector.hxx |  1 +
 src/INTERP_KERNEL/PlanarIntersector.txx | 45 +++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/INTERP_KERNEL/PlanarIntersector.hxx b/src/INTERP_KERNEL/PlanarIntersector.hxx
index a79c439..7c46541 100644
--- a/src/INTERP_KERNEL/PlanarIntersector.hxx
+++ b/src/INTERP_KERNEL/PlanarIntersector.hxx
@@ -57,6 +57,7 @@ class PlanarIntersector : public TargetIntersector<MyMeshType, MyMatrix>
     virtual ~PlanarIntersector();
     void createBoundingBoxes(const MyMeshType &mesh, std::vector<double> &bbox);
     inline void getElemBB(double *bb, const MyMeshType &mesh, ConnType iP, ConnType nb_nodes);
+    void growBBWithArcs(double *bb, const MyMeshType &mesh, ConnType iP, ConnType nb_nodes);
     static int Projection(
         double *Coords_A,
         double *Coords_B,
diff --git a/src/INTERP_KERNEL/PlanarIntersector.txx b/src/INTERP_KERNEL/PlanarIntersector.txx
index 6bcb778..b3fa505 100644
--- a/src/INTERP_KERNEL/PlanarIntersector.txx
+++ b/src/INTERP_KERNEL/PlanarIntersector.txx
@@ -23,6 +23,7 @@
 #include "PlanarIntersector.hxx"
 #include "InterpolationUtils.hxx"
 #include "TranslationRotationMatrix.hxx"
+#include "CellModel.hxx"
 
 #include <iostream>
 #include <limits>
@@ -111,6 +112,9 @@ PlanarIntersector<MyMeshType, MyMatrix>::createBoundingBoxes(const MyMeshType &m
                     (bbox[ibox * 2 * SPACEDIM + 2 * idim + 1] > x) ? bbox[ibox * 2 * SPACEDIM + 2 * idim + 1] : x;
             }
         }
+        growBBWithArcs(
+            &bbox[ibox * 2 * SPACEDIM], mesh, OTT<ConnType, numPol>::indFC(ConnType(icell)), nb_nodes_per_elem
+        );
         ibox++;
     }
 }
@@ -148,6 +152,47 @@ PlanarIntersector<MyMeshType, MyMatrix>::getElemBB(double *bb, const MyMeshType
             bb[2 * idim + 1] = (x > bb[2 * idim + 1]) ? x : bb[2 * idim + 1];
         }
     }
+    growBBWithArcs(bb, mesh, iP, nb_nodes);
+}
+
+/*!
+    Enlarges the bounding box of the nodes of a quadratic cell so that it contains its arcs of circle too. Each half of
+   an arc is at most an half circle, it does not go away from its ends farther than the half of its chord.
+    \param [in,out] bb bounding box of the nodes of cell \a iP
+   */
+template <class MyMeshType, class MyMatrix>
+void
+PlanarIntersector<MyMeshType, MyMatrix>::growBBWithArcs(
+    double *bb, const MyMeshType &mesh, ConnType iP, ConnType nb_nodes
+)
+{
+    const CellModel &cm = CellModel::GetCellModel(mesh.getTypeOfElement(iP));
+    if (!cm.isQuadratic())
+        return;
+    const double *coords = mesh.getCoordinatesPtr();
+    const ConnType *conn = mesh.getConnectivityPtr() + OTT<ConnType, numPol>::conn2C(
+                                                           mesh.getConnectivityIndexPtr()[OTT<ConnType, numPol>::ind2C(iP)]
+                                                       );
+    const ConnType nbEdges = cm.getDimension() == 1 ? 1 : nb_nodes / 2;
+    const ConnType nbEnds = cm.getDimension() == 1 ? 2 : nbEdges;
+    double grow2 = 0.;
+    for (ConnType i = 0; i < nbEdges; i++)
+    {
+        const double *mid = coords + SPACEDIM * OTT<ConnType, numPol>::coo2C(conn[nbEnds + i]);
+        for (ConnType j = 0; j < 2; j++)
+        {
+            const double *end = coords + SPACEDIM * OTT<ConnType, numPol>::coo2C(conn[(i + j) % nbEnds]);
+            double dist2 = 0.;
+            for (int idim = 0; idim < SPACEDIM; idim++) dist2 += (mid[idim] - end[idim]) * (mid[idim] - end[idim]);
+            grow2 = std::max(grow2, dist2);
+        }
+    }
+    const double grow = std::sqrt(grow2) / 2.;
+    for (int idim = 0; idim < SPACEDIM; idim++)
+    {
+        bb[2 * idim] -= grow;
+        bb[2 * idim + 1] += grow;
+    }
 }
 
 /*!
-- 
2.43.0


From 4145527f5cb0ecae140fa2be594958a5f2f2acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:08 +0000
Subject: [PATCH 037/122] fix: write out of bounds splitting hexagonal prisms

---
 src/INTERP_KERNEL/SplitterTetra.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/SplitterTetra.txx b/src/INTERP_KERNEL/SplitterTetra.txx
index aeeb425..785c741 100644
--- a/src/INTERP_KERNEL/SplitterTetra.txx
+++ b/src/INTERP_KERNEL/SplitterTetra.txx
@@ -1382,7 +1382,7 @@ SplitterTetra2<MyMeshTypeT, MyMeshTypeS>::splitConvex(
     static std::vector<ConnType> allNodeIndices;  // == 0,1,2,...,nbOfCellNodes-1
     while (allNodeIndices.size() < (std::size_t)nbOfCellNodes)
         allNodeIndices.push_back(static_cast<ConnType>(allNodeIndices.size()));
-    std::vector<ConnType> classicFaceNodes(4);
+    std::vector<ConnType> classicFaceNodes(6);  // NORM_HEXGP12 has faces of 6 nodes
     if (cellModelCell.isQuadratic())
         throw INTERP_KERNEL::Exception("SplitterTetra2::splitConvex : quadratic 3D cells are not implemented yet !");
     ConnType *faceNodes = cellModelCell.isDynamic() ? &allNodeIndices[0] : &classicFaceNodes[0];
-- 
2.43.0


From d021e8dd223f1cbefe62b4c6f9ff8fd201b6fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:18 +0000
Subject: [PATCH 038/122] fix: point location in a hexagonal prism whose face
 starts with aligned nodes

---
 src/INTERP_KERNEL/PointLocatorAlgos.txx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/PointLocatorAlgos.txx b/src/INTERP_KERNEL/PointLocatorAlgos.txx
index 7d6bb35..e13ddb9 100644
--- a/src/INTERP_KERNEL/PointLocatorAlgos.txx
+++ b/src/INTERP_KERNEL/PointLocatorAlgos.txx
@@ -234,9 +234,8 @@ class PointLocatorAlgos : public GenericPointLocatorAlgos
             NormalizedCellType typeOfSon;
             unsigned nb_face_nodes =
                 cmType.fillSonCellNodalConnectivity2(iface, conn_elem, conn_elem_sz, connOfSon.get(), typeOfSon);
-            // in case of polyhedron, points can be colinear on some faces
+            // points can be colinear on faces of more than 3 nodes (polyhedra, hexagonal prisms, degenerated cells)
             // => loop until non colinear points are found
-            // or element type is not polyhedron
             // or max number of nodes is reached to avoid infinite loop on this face
             bool non_colinear_points_found = false;
             unsigned i_permutation = 0;
@@ -248,8 +247,7 @@ class PointLocatorAlgos : public GenericPointLocatorAlgos
                     coords + SPACEDIM * (OTT<ConnType, numPol>::coo2C(connOfSon[(1 + i_permutation) % nb_face_nodes]));
                 const double *CC =
                     coords + SPACEDIM * (OTT<ConnType, numPol>::coo2C(connOfSon[(2 + i_permutation) % nb_face_nodes]));
-                if (cmType.getEnum() == NORM_POLYHED && isColinear3DPtsRelative(AA, BB, CC, eps) &&
-                    i_permutation < nb_face_nodes)
+                if (nb_face_nodes > 3 && isColinear3DPtsRelative(AA, BB, CC, eps) && i_permutation < nb_face_nodes)
                     // points are colinear => use next 3 other points
                     i_permutation += 1;
                 else
-- 
2.43.0


From e0e3c3222c46865586186668a191981784bcead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 039/122] fix: P0P1 barycentric intersector wrote its running
 sum outside the coefficient array

---
 src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx b/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx
index 0474743..0d878dc 100644
--- a/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx
+++ b/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx
@@ -134,7 +134,7 @@ PlanarIntersectorP0P1Bary<MyMeshType, MyMatrix, ConcreteP0P1Intersector>::inters
                 typename MyMatrix::value_type::const_iterator iterRes = resRow.find(*iter);
                 if (iterRes != resRow.end())
                 {
-                    nodeCeffs[*iter] += iterRes->second;
+                    nodeCeffs[nodeIdT] += iterRes->second;
                     resRow.erase(*iter);
                 }
                 resRow.insert(std::make_pair(*iter, nodeCeffs[nodeIdT]));
-- 
2.43.0


From c6e01a77d8ced824c1447e6032b61714301d76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 040/122] fix: quad_mapped_coords rejects points of a QUAD4
 with two sides along an axis, dividing by the null component

---
 src/INTERP_KERNEL/InterpolationUtils.hxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/INTERP_KERNEL/InterpolationUtils.hxx b/src/INTERP_KERNEL/InterpolationUtils.hxx
index 921f532..c3a68f8 100644
--- a/src/INTERP_KERNEL/InterpolationUtils.hxx
+++ b/src/INTERP_KERNEL/InterpolationUtils.hxx
@@ -763,12 +763,13 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
         );
     if (cas1)
     {
-        double denom = C[0] + bc[1] * N[0];
-        if (fabs(denom) < prec)
+        double D[2] = {C[0] + bc[1] * N[0], C[1] + bc[1] * N[1]};
+        int k = fabs(D[0]) >= fabs(D[1]) ? 0 : 1;  // the two components give the same value, one of them can be 0/0
+        if (fabs(D[k]) < prec)
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
             );
-        bc[0] = (P[0] - bc[1] * A[0]) / denom;
+        bc[0] = (P[k] - bc[1] * A[k]) / D[k];
         if (bc[0] < -prec || bc[0] > (1.0 + prec))
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
@@ -777,12 +778,13 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
     else
     {
         bc[0] = bc[1];
-        double denom = A[1] + bc[0] * N[1];
-        if (fabs(denom) < prec)
+        double D[2] = {A[0] + bc[0] * N[0], A[1] + bc[0] * N[1]};
+        int k = fabs(D[0]) >= fabs(D[1]) ? 0 : 1;  // the two components give the same value, one of them can be 0/0
+        if (fabs(D[k]) < prec)
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: cuboid_mapped_coord(): point doesn't seem to be in quad4!"
             );
-        bc[1] = (P[1] - bc[0] * C[1]) / denom;
+        bc[1] = (P[k] - bc[0] * C[k]) / D[k];
         if (bc[1] < -prec || bc[1] > (1.0 + prec))
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: cuboid_mapped_coord(): point doesn't seem to be in quad4!"
-- 
2.43.0


From 81b2790fd2a674e134c4d6074557e998e58aefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:10 +0000
Subject: [PATCH 041/122] fix: TRI6 (case A): reference coordinates of the
 fourth node, shape function of the sixth node

---
 src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
index 8348a5c..c48193c 100644
--- a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
+++ b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
@@ -41,7 +41,7 @@ const double GaussInfo::TRIA3A_REF[6] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0};
 
 const double GaussInfo::TRIA3B_REF[6] = {0.0, 0.0, 1.0, 0.0, 0.0, 1.0};
 
-const double GaussInfo::TRIA6A_REF[12] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, 1.0, 0.0, -1.0, 0.0, 0.0};
+const double GaussInfo::TRIA6A_REF[12] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, 0.0, 0.0, -1.0, 0.0, 0.0};
 
 const double GaussInfo::TRIA6B_REF[12] = {0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.5, 0.0, 0.5, 0.5, 0.0, 0.5};
 
@@ -1325,7 +1325,7 @@ GaussInfo::tria6aInit()
         funValue[2] = 0.5 * (1.0 + gc[0]) * gc[0];
         funValue[3] = -1.0 * (1.0 + gc[1]) * (gc[0] + gc[1]);
         funValue[4] = -1.0 * (1.0 + gc[0]) * (gc[0] + gc[1]);
-        funValue[5] = (1.0 + gc[1]) * (1.0 + gc[1]);
+        funValue[5] = (1.0 + gc[0]) * (1.0 + gc[1]);
         SHAPE_FUN_MACRO_END;
 
         DEV_SHAPE_FUN_MACRO_BEGIN;
@@ -1345,8 +1345,8 @@ GaussInfo::tria6aInit()
         devFunValue[8] = -1.0 * (2 * gc[0] + gc[1] + 1.0);
         devFunValue[9] = -1.0 * (1.0 + gc[0]);
 
-        devFunValue[10] = 0.0;
-        devFunValue[11] = (2 * gc[1] + 2.0);
+        devFunValue[10] = 1.0 + gc[1];
+        devFunValue[11] = 1.0 + gc[0];
 
         DEV_SHAPE_FUN_MACRO_END;
 }
-- 
2.43.0


From 8e51a8bec807634cdd1f131890936481eef2d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:54 +0000
Subject: [PATCH 042/122] fix: P1P0 3-D remapping from hexahedra (GENERAL_24)
 or polyhedra counted each intersection as many times as there are candidate
 source cells

---
 .../PolyhedronIntersectorP1P0.txx             | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/INTERP_KERNEL/PolyhedronIntersectorP1P0.txx b/src/INTERP_KERNEL/PolyhedronIntersectorP1P0.txx
index 92fad4e..c37708b 100644
--- a/src/INTERP_KERNEL/PolyhedronIntersectorP1P0.txx
+++ b/src/INTERP_KERNEL/PolyhedronIntersectorP1P0.txx
@@ -140,25 +140,17 @@ PolyhedronIntersectorP1P0<MyMeshType, MyMatrix>::intersectCells(
         }
         else
         {  // for HEXA and GENERAL_24 no need to use subsplitting into dual mesh
-            for (typename std::vector<ConnType>::const_iterator iterCellS = srcCells.begin();
-                 iterCellS != srcCells.end();
-                 iterCellS++)
+            releaseArrays();
+            _split.splitTargetCell2(*iterCellS, _tetra);
+            for (typename std::vector<SplitterTetra<MyMeshType> *>::const_iterator iter = _tetra.cbegin();
+                 iter != _tetra.cend();
+                 ++iter)
             {
-                releaseArrays();
-                ConnType nbOfNodesS = Intersector3D<MyMeshType, MyMatrix>::_src_mesh.getNumberOfNodesOfElement(
-                    OTT<ConnType, numPol>::indFC(*iterCellS)
-                );
-                _split.splitTargetCell2(*iterCellS, _tetra);
-                for (typename std::vector<SplitterTetra<MyMeshType> *>::const_iterator iter = _tetra.cbegin();
-                     iter != _tetra.cend();
-                     ++iter)
-                {
-                    double volume = std::abs((*iter)->intersectSourceCell(targetCell));
-                    // node #0 is for internal node node #1 is for the node at the middle of the face
-                    ConnType sourceNode0((*iter)->getId(0)), sourceNode1((*iter)->getId(1));
-                    AddContributionInRow(resRow, OTT<ConnType, numPol>::indFC(sourceNode0), volume / 2.);
-                    AddContributionInRow(resRow, OTT<ConnType, numPol>::indFC(sourceNode1), volume / 2.);
-                }
+                double volume = std::abs((*iter)->intersectSourceCell(targetCell));
+                // node #0 is for internal node node #1 is for the node at the middle of the face
+                ConnType sourceNode0((*iter)->getId(0)), sourceNode1((*iter)->getId(1));
+                AddContributionInRow(resRow, OTT<ConnType, numPol>::indFC(sourceNode0), volume / 2.);
+                AddContributionInRow(resRow, OTT<ConnType, numPol>::indFC(sourceNode1), volume / 2.);
             }
         }
     }
-- 
2.43.0


From 7eb18fea010cf3b8fd942fbc6f1e3ccb35cde879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 043/122] fix: quad_mapped_coords rejects points on the border
 of the cell because of rounding errors

---
 src/INTERP_KERNEL/InterpolationUtils.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/INTERP_KERNEL/InterpolationUtils.hxx b/src/INTERP_KERNEL/InterpolationUtils.hxx
index c3a68f8..d2a7417 100644
--- a/src/INTERP_KERNEL/InterpolationUtils.hxx
+++ b/src/INTERP_KERNEL/InterpolationUtils.hxx
@@ -704,6 +704,7 @@ inline void
 quad_mapped_coords(const std::vector<const double *> &n, const double *p, double *bc)
 {
     double prec = 1.0e-14;
+    double border = 1.0e-10;  // points on the border of the cell come with the rounding errors of the computation
     enum
     {
         _XX = 0,
@@ -754,10 +755,12 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
         throw INTERP_KERNEL::Exception(
             "MappedBarycentric intersection type: quad_mapped_coords(): imaginary solutions!"
         );
-    bc[1] = 0.5 * (-b + sqrt(delta)) / a;
-    if (bc[1] < -prec || bc[1] > (1.0 + prec))
-        bc[1] = 0.5 * (-b - sqrt(delta)) / a;
-    if (bc[1] < -prec || bc[1] > (1.0 + prec))
+    // the two roots are q/a and c/q : no difference of nearly equal numbers
+    double q = -0.5 * (b < 0. ? b - sqrt(delta) : b + sqrt(delta));
+    bc[1] = q / a;
+    if ((bc[1] < -border || bc[1] > (1.0 + border)) && q != 0.)
+        bc[1] = c / q;
+    if (bc[1] < -border || bc[1] > (1.0 + border))
         throw INTERP_KERNEL::Exception(
             "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
         );
@@ -770,7 +773,7 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
                 "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
             );
         bc[0] = (P[k] - bc[1] * A[k]) / D[k];
-        if (bc[0] < -prec || bc[0] > (1.0 + prec))
+        if (bc[0] < -border || bc[0] > (1.0 + border))
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
             );
@@ -785,7 +788,7 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
                 "MappedBarycentric intersection type: cuboid_mapped_coord(): point doesn't seem to be in quad4!"
             );
         bc[1] = (P[k] - bc[0] * C[k]) / D[k];
-        if (bc[1] < -prec || bc[1] > (1.0 + prec))
+        if (bc[1] < -border || bc[1] > (1.0 + border))
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: cuboid_mapped_coord(): point doesn't seem to be in quad4!"
             );
-- 
2.43.0


From b04d32cbd3b0bbd3dee1cea719a3310ecd7a2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 044/122] fix: distance from a point to a triangle of space
 wrong in the regions facing a vertex

---
 src/INTERP_KERNEL/VolSurfUser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/VolSurfUser.cxx b/src/INTERP_KERNEL/VolSurfUser.cxx
index 5498fc4..f4059f4 100644
--- a/src/INTERP_KERNEL/VolSurfUser.cxx
+++ b/src/INTERP_KERNEL/VolSurfUser.cxx
@@ -121,7 +121,7 @@ _HelperDistancePtToTri3D_2(
     const double a01, const double aXX, const double aYY, const double bX, const double bY, const double c
 )
 {
-    double tmp0 = a01 + bX, tmp1 = aXX + bY;
+    double tmp0 = a01 + bX, tmp1 = aYY + bY;
     if (tmp1 > tmp0)
     {
         double numer = tmp1 - tmp0, denom = aXX - 2 * a01 + aYY;
-- 
2.43.0


From d9848772ac78138437138380a5da83d58fb6de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 045/122] fix: distance from a point to a triangle took small
 triangles (1e-3) for flat ones

---
 src/INTERP_KERNEL/VolSurfUser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/VolSurfUser.cxx b/src/INTERP_KERNEL/VolSurfUser.cxx
index f4059f4..73bfe1f 100644
--- a/src/INTERP_KERNEL/VolSurfUser.cxx
+++ b/src/INTERP_KERNEL/VolSurfUser.cxx
@@ -192,7 +192,7 @@ DistanceFromPtToTriInSpaceDim3(const double *pt, const double *pt0Tri3, const do
             else  // region 0
             {
                 // minimum at interior point
-                if (fabs(det) < 1.0e-12)
+                if (det <= 1.0e-12 * a00 * a11)
                 {
                     // points are colinear (degenerated triangle)
                     // => Compute distance between segments
-- 
2.43.0


From ea4b30f7fdff4ed38caaa3f475cc8cae6bd3c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 046/122] fix:
 MEDCouplingCurveLinearMesh::getCellContainingPoint read out of the
 coordinates in 3-D and returned ids computed with the number of nodes

---
 .../MEDCouplingCurveLinearMesh.cxx            | 271 +++++-------------
 1 file changed, 65 insertions(+), 206 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index b17f08c..039ac60 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -638,229 +638,88 @@ MEDCouplingCurveLinearMesh::getCellContainingPoint(const double *pos, double eps
     _coords->distanceToTuple(pos, pos + spaceDim, nodeId);
     if (nodeId < 0)
         throw INTERP_KERNEL::Exception("MEDCouplingCurveLinearMesh::getCellContainingPoint : internal problem 1 !");
-    mcIdType conn[8];
     mcIdType nbOfNodes = getNumberOfNodes();
     if (nbOfNodes == 1)
         throw INTERP_KERNEL::Exception("MEDCouplingCurveLinearMesh::getCellContainingPoint : No cells in this !");
-    switch (getMeshDimension())
+    const int meshDim(getMeshDimension());
+    if (meshDim < 1 || meshDim > 3)
+        throw INTERP_KERNEL::Exception(
+            "MEDCouplingCurveLinearMesh::getCellContainingPoint : mesh dimension managed are 1, 2 or 3 !"
+        );
+    if (meshDim != spaceDim)
+        return -1;
+    // number of nodes and of cells along each axis
+    mcIdType nn[3] = {1, 1, 1}, nc[3] = {1, 1, 1};
+    for (int i = 0; i < meshDim; i++)
     {
-        case 1:
-            if (spaceDim == 1)
+        nn[i] = _structure[i];
+        nc[i] = _structure[i] - 1;
+    }
+    auto isIn = [&](mcIdType cx, mcIdType cy, mcIdType cz) -> bool
+    {
+        const mcIdType n0(cx + nn[0] * (cy + nn[1] * cz)), nXY(nn[0] * nn[1]);
+        switch (meshDim)
+        {
+            case 1:
             {
-                if (nodeId > 0)
-                {
-                    conn[0] = nodeId - 1;
-                    conn[1] = nodeId;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
-                        ))
-                        return nodeId - 1;
-                }
-                if (nodeId < nbOfNodes - 1)
-                {
-                    conn[0] = nodeId;
-                    conn[1] = nodeId + 1;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
-                        ))
-                        return nodeId;
-                }
+                const mcIdType conn[2] = {n0, n0 + 1};
+                return INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
+                    pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
+                );
             }
-            break;
-        case 2:
-            if (spaceDim == 2)
+            case 2:
             {
-                mcIdType ny = nodeId / _structure[0], nx = nodeId - ny * _structure[0];
-                if (nx > 0 && ny > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1);
-                    conn[1] = nx - 1 + _structure[0] * ny;
-                    conn[2] = nx + _structure[0] * ny;
-                    conn[3] = nx + _structure[0] * (ny - 1);
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0];
-                }
-                if (nx < _structure[0] - 1 && ny > 0)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1);
-                    conn[1] = nx + _structure[0] * ny;
-                    conn[2] = nx + 1 + _structure[0] * ny;
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1);
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0];
-                }
-                if (nx > 0 && ny < _structure[1] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny;
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1);
-                    conn[2] = nx + _structure[0] * (ny + 1);
-                    conn[3] = nx + _structure[0] * ny;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx - 1 + ny * _structure[0];
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1)
-                {
-                    conn[0] = nx + _structure[0] * ny;
-                    conn[1] = nx + _structure[0] * (ny + 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1);
-                    conn[3] = nx + 1 + _structure[0] * ny;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx + ny * _structure[0];
-                }
+                const mcIdType conn[4] = {n0, n0 + nn[0], n0 + nn[0] + 1, n0 + 1};
+                return INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
+                    pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
+                );
             }
-            break;
-        case 3:
-        {
-            if (spaceDim == 3)
+            default:
             {
-                mcIdType nY = _structure[0] * _structure[1];
-                mcIdType nz = nodeId / _structure[1];
-                mcIdType ny = (nodeId - nz * nY) / _structure[0];
-                mcIdType nx = (nodeId - nz * nY) - _structure[0] * ny;
-                if (nx > 0 && ny > 0 && nz > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[2] * ny + nY * (nz - 1);
-                    conn[2] = nx + _structure[2] * ny + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx < _structure[0] - 1 && ny > 0 && nz > 0)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx > 0 && ny < _structure[1] - 1 && nz > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + ny * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1 && nz > 0)
-                {
-                    conn[0] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * ny + nY * nz;
-                    conn[5] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + ny * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx > 0 && ny > 0 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[2] * ny + nY * (nz - 1);
-                    conn[2] = nx + _structure[2] * ny + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0] + nz * nY;
-                }
-                if (nx < _structure[0] - 1 && ny > 0 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0] + nz * nY;
-                }
-                if (nx > 0 && ny < _structure[1] - 1 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + ny * _structure[0] + nz * nY;
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * ny + nY * nz;
-                    conn[5] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + ny * _structure[0] + nz * nY;
-                }
+                const mcIdType conn[8] = {
+                    n0,
+                    n0 + nn[0],
+                    n0 + nn[0] + 1,
+                    n0 + 1,
+                    n0 + nXY,
+                    n0 + nXY + nn[0],
+                    n0 + nXY + nn[0] + 1,
+                    n0 + nXY + 1
+                };
+                return INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
+                    pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
+                );
             }
         }
-        break;
-        default:
-            throw INTERP_KERNEL::Exception(
-                "MEDCouplingCurveLinearMesh::getCellContainingPoint : mesh dimension managed are 1, 2 or 3 !"
-            );
-    }
-    return 0;
+    };
+    // first the cells around the closest node
+    const mcIdType pz(nodeId / (nn[0] * nn[1])), py((nodeId / nn[0]) % nn[1]), px(nodeId % nn[0]);
+    const mcIdType bg[3] = {
+        std::max<mcIdType>(px - 1, 0), std::max<mcIdType>(py - 1, 0), std::max<mcIdType>(pz - 1, 0)
+    };
+    const mcIdType last[3] = {
+        std::min<mcIdType>(px, nc[0] - 1), std::min<mcIdType>(py, nc[1] - 1), std::min<mcIdType>(pz, nc[2] - 1)
+    };
+    for (mcIdType cz = bg[2]; cz <= last[2]; cz++)
+        for (mcIdType cy = bg[1]; cy <= last[1]; cy++)
+            for (mcIdType cx = bg[0]; cx <= last[0]; cx++)
+                if (isIn(cx, cy, cz))
+                    return cx + nc[0] * (cy + nc[1] * cz);
+    // the closest node is not necessarily a node of the cell containing pos
+    for (mcIdType cz = 0; cz < nc[2]; cz++)
+        for (mcIdType cy = 0; cy < nc[1]; cy++)
+            for (mcIdType cx = 0; cx < nc[0]; cx++)
+                if (isIn(cx, cy, cz))
+                    return cx + nc[0] * (cy + nc[1] * cz);
+    return -1;
 }
 
 void
 MEDCouplingCurveLinearMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret >= 0)
+        elts.push_back(ret);
 }
 
 void
-- 
2.43.0


From b03640c39407e59b87e07ba7b3d1e163c5849e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 047/122] fix: MEDCouplingIMesh::getCellContainingPoint found
 points up to one step before the origin

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 13db0a9..fec5472 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -23,6 +23,7 @@
 #include "MEDCouplingMemArray.hxx"
 #include "MEDCouplingFieldDouble.hxx"
 
+#include <cmath>
 #include <functional>
 #include <algorithm>
 #include <sstream>
@@ -1442,7 +1443,10 @@ MEDCouplingIMesh::getCellContainingPoint(const double *pos, double eps) const
     {
         mcIdType nbOfCells(_structure[i] - 1);
         double ref(pos[i]);
-        mcIdType tmp(ToIdType((ref - _origin[i]) / _dxyz[i]));
+        // floor and not a cast : a point less than one step before the origin is not in the first cell
+        mcIdType tmp(ToIdType(std::floor((ref - _origin[i]) / _dxyz[i])));
+        if (tmp == -1 && std::abs(ref - _origin[i]) < eps)
+            tmp = 0;
         if (tmp >= 0 && tmp < nbOfCells)
         {
             ret += coeff * tmp;
-- 
2.43.0


From 081c9f1316c0241f94f9073641acad381bb60ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 048/122] fix: getCellsContainingPoint(s) of structured meshes
 returned the cell -1 for points out of the mesh

---
 src/MEDCoupling/MEDCouplingCMesh.cxx | 3 ++-
 src/MEDCoupling/MEDCouplingIMesh.cxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCMesh.cxx b/src/MEDCoupling/MEDCouplingCMesh.cxx
index 66dbff6..5adaf41 100644
--- a/src/MEDCoupling/MEDCouplingCMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCMesh.cxx
@@ -699,7 +699,8 @@ void
 MEDCouplingCMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret >= 0)
+        elts.push_back(ret);
 }
 
 void
diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index fec5472..2245183 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -1462,7 +1462,8 @@ void
 MEDCouplingIMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret >= 0)
+        elts.push_back(ret);
 }
 
 void
-- 
2.43.0


From 9553a15a36d6d8530856234041436ed252993541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:11 +0000
Subject: [PATCH 049/122] fix: conformize3D lost the nodes put in an edge of a
 face when another edge of the face was split

---
 src/MEDCoupling/MEDCouplingUMesh_intersection.cxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx b/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
index 7d26930..fe9f171 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
@@ -3529,8 +3529,6 @@ MEDCouplingUMesh::conformize3D(double eps)
         MCAuto<MEDCouplingUMesh> mDesc(buildDescendingConnectivity2(desc, descI, revDesc, revDescI));
         const mcIdType *revDescIP(revDescI->getConstPointer()), *revDescP(revDesc->getConstPointer());
         const mcIdType *descIP(descI->getConstPointer()), *descP(desc->getConstPointer());
-        const mcIdType *cDesc(mDesc->getNodalConnectivity()->begin()),
-            *cIDesc(mDesc->getNodalConnectivityIndex()->begin());
         MCAuto<DataArrayIdType> ciDeepC(mDesc->getNodalConnectivityIndex()->deepCopy());
         MCAuto<DataArrayIdType> cDeepC(mDesc->getNodalConnectivity()->deepCopy());
         MCAuto<MEDCouplingSkyLineArray> connSlaDesc(MEDCouplingSkyLineArray::New(ciDeepC, cDeepC));
@@ -3670,9 +3668,10 @@ MEDCouplingUMesh::conformize3D(double eps)
                 // each cell where this face is involved connectivity will be modified:
                 ret->pushBackValsSilent(revDescP + revDescIP[faceIdx], revDescP + revDescIP[faceIdx + 1]);
 
-                // Current face connectivity
-                const mcIdType *sIdxConn = cDesc + cIDesc[faceIdx] + 1;
-                const mcIdType *sIdxConnE = cDesc + cIDesc[faceIdx + 1];
+                // Current face connectivity (other edges of the face may have been split already)
+                mcIdType faceSz;
+                const mcIdType *sIdxConn = connSlaDesc->getSimplePackSafePtr(faceIdx, faceSz) + 1;
+                const mcIdType *sIdxConnE = sIdxConn + faceSz - 1;
 
                 vector<mcIdType> modifiedFace;
                 ReplaceEdgeInFace(sIdxConn, sIdxConnE, startNode, endNode, insidePoints, /*out*/ modifiedFace);
-- 
2.43.0


From d7a8d3132566340620dfb2123fe548620c7fec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:11 +0000
Subject: [PATCH 050/122] fix: colinearizeKeepingConform2D looked for the
 junction of the first two edges from the wrong edge

---
 src/MEDCoupling/MEDCouplingUMesh_intersection.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx b/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
index fe9f171..609e9aa 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
@@ -573,6 +573,8 @@ MEDCouplingUMesh::Colinearize2DCell(
         }
         // Now move forward:
         const unsigned fwdStart = (nbOfTurn == 0 ? 0 : posBaseElt);  // the first element to be inspected going forward
+        if (nbOfTurn == 0)  // tmpConn was moved backward
+            cm.fillSonCellNodalConnectivity2(0, connBg + 1, ToIdType(sz), tmpConn, typeOfSon);
         for (unsigned j = fwdStart + 1; j < nbs && nbOfHit < maxNbOfHit;
              j++)  // 2nd condition is to avoid ending with a cell with one single edge
         {
-- 
2.43.0


From a02e8aa6f74bbc7a95cff86388405e970c861610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:11 +0000
Subject: [PATCH 051/122] fix: buildUniqueNotSorted overflowed on an empty
 array

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 9701a82..3c3ed78 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -6653,12 +6653,17 @@ DataArrayDiscrete<T>::buildUniqueNotSorted() const
     this->checkAllocated();
     if (this->getNumberOfComponents() != 1)
         throw INTERP_KERNEL::Exception("DataArrayInt::buildUniqueNotSorted : only single component allowed !");
+    MCAuto<DataArrayType> ret(DataArrayType::New());
+    ret->alloc(0, 1);
+    if (this->empty())
+    {
+        ret->copyStringInfoFrom(*this);
+        return ret.retn();
+    }
     T minVal, maxVal;
     this->getMinMaxValues(minVal, maxVal);
     std::vector<bool> b(maxVal - minVal + 1, false);
     const T *ptBg(this->begin()), *endBg(this->end());
-    MCAuto<DataArrayType> ret(DataArrayType::New());
-    ret->alloc(0, 1);
     for (const T *pt = ptBg; pt != endBg; pt++)
     {
         if (!b[*pt - minVal])
-- 
2.43.0


From f9c47c99a00574e0183c2932648a065fc5ee9d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:28 +0000
Subject: [PATCH 052/122] fix: clipSingle3DCellByPlane refused cuts which give
 as many faces as the cell has edges

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index a74d917..cd5b64e 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -4967,7 +4967,7 @@ MEDCouplingUMesh::clipSingle3DCellByPlane(const double origin[3], const double v
     std::vector<std::vector<mcIdType> > res;
     buildSubCellsFromCut(cut3DSurf, desc2->begin(), descIndx2->begin(), mDesc1->getCoords()->begin(), eps, res);
     std::size_t sz(res.size());
-    if (ToIdType(res.size()) == mDesc1->getNumberOfCells() && sameNbNodes)
+    if (ToIdType(res.size()) == mDesc2->getNumberOfCells() && sameNbNodes)
         throw INTERP_KERNEL::Exception("MEDCouplingUMesh::clipSingle3DCellByPlane : cell is not clipped !");
     for (std::size_t i = 0; i < sz; i++)
     {
-- 
2.43.0


From 117db50e7638e64d14ff6ed52c6bbe32ff086e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 053/122] fix: splitAbs named the wrong merged nodes of edges
 used backwards

A line which ends inside an edge that it follows backwards lost a piece in Intersect2DMeshWith1DLine.
---
 .../Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
index 5fbb90d..187b923 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
@@ -354,12 +354,13 @@ QuadraticPolygon::splitAbs(
                 ElementaryEdge *curThis = itThis.current();
                 merge.clear();
                 //
+                // start and end of the edges whatever the direction they are used with, as in 'merge'
                 std::map<INTERP_KERNEL::Node *, mcIdType>::const_iterator thisStart(
-                    mapThis.find(curThis->getStartNode())
+                    mapThis.find(curThis->getPtr()->getStartNode())
                 ),
-                    thisEnd(mapThis.find(curThis->getEndNode())),
-                    otherStart(mapOther.find(curOtherTmp->getStartNode())),
-                    otherEnd(mapOther.find(curOtherTmp->getEndNode()));
+                    thisEnd(mapThis.find(curThis->getPtr()->getEndNode())),
+                    otherStart(mapOther.find(curOtherTmp->getPtr()->getStartNode())),
+                    otherEnd(mapOther.find(curOtherTmp->getPtr()->getEndNode()));
                 mcIdType thisStart2(thisStart == mapThis.end() ? -1 : (*thisStart).second),
                     thisEnd2(thisEnd == mapThis.end() ? -1 : (*thisEnd).second),
                     otherStart2(otherStart == mapOther.end() ? -1 : (*otherStart).second + offset1),
-- 
2.43.0


From e98224fbf6eff30b7970d41f8e2c53ed7910aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 054/122] fix: voronoize of anticlockwise reference triangles
 gave wrong cells

---
 src/MEDCoupling/MEDCouplingVoronoi.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingVoronoi.cxx b/src/MEDCoupling/MEDCouplingVoronoi.cxx
index ff84aeb..b88cff0 100644
--- a/src/MEDCoupling/MEDCouplingVoronoi.cxx
+++ b/src/MEDCoupling/MEDCouplingVoronoi.cxx
@@ -455,6 +455,11 @@ MEDCoupling::Voronizer2D::doIt(const MEDCouplingUMesh *m, const DataArrayDouble
     std::vector<double> bbox(4);
     m->getBoundingBox(&bbox[0]);
     std::vector<MCAuto<MEDCouplingUMesh> > l0(1, MCAuto<MEDCouplingUMesh>(m->deepCopy()));
+    {  // same orientation as the cells it is intersected with
+        MCAuto<MEDCouplingFieldDouble> tmp(l0[0]->getMeasureField(false));
+        if (tmp->getArray()->getIJ(0, 0) < 0)
+            l0[0]->invertOrientationOfAllCells();
+    }
     const double *pts(points->begin());
     for (mcIdType i = 1; i < nbPts; i++)
     {
-- 
2.43.0


From 66b384304da8f3853a0c3bface64288e9a33acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 055/122] fix: voronoize of 1-D cells was wrong when the Gauss
 points are not sorted

---
 src/MEDCoupling/MEDCouplingVoronoi.cxx | 146 +++++--------------------
 1 file changed, 27 insertions(+), 119 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingVoronoi.cxx b/src/MEDCoupling/MEDCouplingVoronoi.cxx
index b88cff0..bea3b9e 100644
--- a/src/MEDCoupling/MEDCouplingVoronoi.cxx
+++ b/src/MEDCoupling/MEDCouplingVoronoi.cxx
@@ -287,48 +287,6 @@ MergeVorCells3D(const std::vector<MCAuto<MEDCouplingUMesh> > &vcs, double eps)
     return ret;
 }
 
-MCAuto<MEDCouplingUMesh>
-MergeVorCells1D(const std::vector<MCAuto<MEDCouplingUMesh> > &vcs, double eps)
-{
-    static const mcIdType CONN_SEG2_DFT[2] = {0, 1};
-    if (vcs.empty())
-        throw INTERP_KERNEL::Exception("MergeVorCells1D : internal error 1 !");
-    if (vcs.size() == 1)
-        return vcs[0];
-    if (vcs.size() > 2)
-        throw INTERP_KERNEL::Exception("MergeVorCells1D : internal error 2 !");
-    double a0, b0, a1, b1;
-    {
-        const mcIdType *connPtr(vcs[0]->getNodalConnectivity()->begin());
-        const double *coordPtr(vcs[0]->getCoords()->begin());
-        a0 = coordPtr[connPtr[1]];
-        b0 = coordPtr[connPtr[2]];
-    }
-    {
-        const mcIdType *connPtr(vcs[1]->getNodalConnectivity()->begin());
-        const double *coordPtr(vcs[1]->getCoords()->begin());
-        a1 = coordPtr[connPtr[1]];
-        b1 = coordPtr[connPtr[2]];
-    }
-    MCAuto<MEDCouplingUMesh> ret(MEDCouplingUMesh::New("", 1));
-    ret->allocateCells();
-    ret->insertNextCell(INTERP_KERNEL::NORM_SEG2, 2, CONN_SEG2_DFT);
-    MCAuto<DataArrayDouble> coo(DataArrayDouble::New());
-    coo->alloc(2, 1);
-    ret->setCoords(coo);
-    if (fabs(b0 - a1) < eps)
-    {
-        coo->setIJ(0, 0, a0);
-        coo->setIJ(1, 0, b1);
-    }
-    else if (fabs(b1 - a0) < eps)
-    {
-        coo->setIJ(0, 0, b0);
-        coo->setIJ(1, 0, a1);
-    }
-    return ret;
-}
-
 MCAuto<MEDCouplingUMesh>
 MEDCoupling::Voronizer1D::doIt(const MEDCouplingUMesh *m, const DataArrayDouble *points, double eps) const
 {
@@ -344,89 +302,39 @@ MEDCoupling::Voronizer1D::doIt(const MEDCouplingUMesh *m, const DataArrayDouble
     mcIdType nbPts(points->getNumberOfTuples());
     if (nbPts < 1)
         throw INTERP_KERNEL::Exception("Voronoize1D : at least one point expected !");
-    std::vector<double> bbox(4);
-    m->getBoundingBox(&bbox[0]);
-    std::vector<MCAuto<MEDCouplingUMesh> > l0(1, MCAuto<MEDCouplingUMesh>(m->deepCopy()));
+    double bbox[2];
+    m->getBoundingBox(bbox);
+    std::vector<MCAuto<MEDCouplingUMesh> > l0;
+    if (nbPts == 1)
+        l0.push_back(MCAuto<MEDCouplingUMesh>(m->deepCopy()));
     const double *pts(points->begin());
-    for (mcIdType i = 1; i < nbPts; i++)
+    for (mcIdType i = 0; i < nbPts && nbPts > 1; i++)
     {
-        MCAuto<MEDCouplingUMesh> vorTess;
-        {
-            std::vector<const MEDCouplingUMesh *> l0Bis(VecAutoToVecOfCstPt(l0));
-            vorTess = MEDCouplingUMesh::MergeUMeshes(l0Bis);
-        }
-        {
-            bool dummy;
-            mcIdType newNbNodes;
-            MCAuto<DataArrayIdType> dummy3(vorTess->mergeNodes(eps, dummy, newNbNodes));
-        }
-        std::vector<mcIdType> polygsToIterOn;
-        const double *pt(pts + i);
-        vorTess->getCellsContainingPoint(pt, eps, polygsToIterOn);
-        if (polygsToIterOn.empty())
+        if (pts[i] < bbox[0] - eps || pts[i] > bbox[1] + eps)
             throw INTERP_KERNEL::Exception("Voronoize1D : a point is outside domain !");
-        if (polygsToIterOn.size() > 2)
-            throw INTERP_KERNEL::Exception("Voronoize1D : overlap of points !");
-        std::vector<MCAuto<MEDCouplingUMesh> > newVorCells;
-        for (std::vector<mcIdType>::const_iterator it = polygsToIterOn.begin(); it != polygsToIterOn.end(); it++)
+        // the points may come in any order
+        double a(bbox[0]), b(bbox[1]);
+        for (mcIdType j = 0; j < nbPts; j++)
         {
-            mcIdType poly(*it);
-            //
-            double seed(pts[poly]), zept(*pt);
-            double mid((seed + zept) / 2.);
-            //
-            MCAuto<MEDCouplingUMesh> tile(l0[poly]);
-            tile->zipCoords();
-            double a, b;
-            {
-                const mcIdType *connPtr(tile->getNodalConnectivity()->begin());
-                const double *coordPtr(tile->getCoords()->begin());
-                a = coordPtr[connPtr[1]];
-                b = coordPtr[connPtr[2]];
-            }
-            double pol0[2], pol1[2];
-            MCAuto<DataArrayDouble> t0(DataArrayDouble::New());
-            t0->alloc(3, 1);
-            t0->setIJ(0, 0, zept);
-            t0->setIJ(1, 0, mid);
-            t0->setIJ(2, 0, seed);
-            t0->applyLin(1., -a);
-            if (t0->isMonotonic(true, eps))
-            {
-                pol0[0] = a;
-                pol0[1] = mid;
-                pol1[0] = mid;
-                pol1[1] = b;
-            }
+            if (j == i)
+                continue;
+            if (fabs(pts[j] - pts[i]) < eps)
+                throw INTERP_KERNEL::Exception("Voronoize1D : overlap of points !");
+            double mid((pts[i] + pts[j]) / 2.);
+            if (pts[j] < pts[i])
+                a = std::max(a, mid);
             else
-            {
-                pol1[0] = a;
-                pol1[1] = mid;
-                pol0[0] = mid;
-                pol0[1] = b;
-            }
-            MCAuto<MEDCouplingUMesh> modifiedCell(MEDCouplingUMesh::New("", 1));
-            modifiedCell->allocateCells();
-            MCAuto<DataArrayDouble> coo1(DataArrayDouble::New());
-            coo1->alloc(2, 1);
-            coo1->setIJ(0, 0, pol1[0]);
-            coo1->setIJ(1, 0, pol1[1]);
-            modifiedCell->setCoords(coo1);
-            modifiedCell->insertNextCell(INTERP_KERNEL::NORM_SEG2, 2, CONN_SEG2_DFT);
-            //
-            MCAuto<MEDCouplingUMesh> newVorCell(MEDCouplingUMesh::New("", 1));
-            newVorCell->allocateCells();
-            MCAuto<DataArrayDouble> coo2(DataArrayDouble::New());
-            coo2->alloc(2, 1);
-            coo2->setIJ(0, 0, pol0[0]);
-            coo2->setIJ(1, 0, pol0[1]);
-            newVorCell->setCoords(coo2);
-            newVorCell->insertNextCell(INTERP_KERNEL::NORM_SEG2, 2, CONN_SEG2_DFT);
-            //
-            l0[poly] = modifiedCell;
-            newVorCells.push_back(newVorCell);
+                b = std::min(b, mid);
         }
-        l0.push_back(MergeVorCells1D(newVorCells, eps));
+        MCAuto<MEDCouplingUMesh> vorCell(MEDCouplingUMesh::New("", 1));
+        vorCell->allocateCells();
+        MCAuto<DataArrayDouble> coo(DataArrayDouble::New());
+        coo->alloc(2, 1);
+        coo->setIJ(0, 0, a);
+        coo->setIJ(1, 0, b);
+        vorCell->setCoords(coo);
+        vorCell->insertNextCell(INTERP_KERNEL::NORM_SEG2, 2, CONN_SEG2_DFT);
+        l0.push_back(vorCell);
     }
     std::vector<const MEDCouplingUMesh *> l0Bis(VecAutoToVecOfCstPt(l0));
     MCAuto<MEDCouplingUMesh> ret(MEDCouplingUMesh::MergeUMeshes(l0Bis));
-- 
2.43.0


From e83b36fd4c8e56cc949c5550536279a48a76facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:25 +0000
Subject: [PATCH 056/122] fix: getCellIdsCrossingPlane lost cells of planes
 nearly parallel to Oxy

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index cd5b64e..c111988 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -5078,14 +5078,14 @@ MEDCouplingUMesh::getCellIdsCrossingPlane(const double *origin, const double *ve
     vec2[0] = vec[1];
     vec2[1] = -vec[0];
     vec2[2] = 0.;  // vec2 is the result of cross product of vec with (0,0,1)
-    double angle = acos(vec[2] / normm);
+    double normm2(sqrt(vec2[0] * vec2[0] + vec2[1] * vec2[1] + vec2[2] * vec2[2]));
+    double angle = atan2(normm2, vec[2]);  // acos is not accurate enough for small angles
     MCAuto<DataArrayIdType> cellIds;
     double bbox[6];
     if (angle > eps)
     {
         MCAuto<DataArrayDouble> coo = _coords->deepCopy();
-        double normm2(sqrt(vec2[0] * vec2[0] + vec2[1] * vec2[1] + vec2[2] * vec2[2]));
-        if (normm2 / normm > 1e-6)
+        if (normm2 / normm > 1e-15)
             DataArrayDouble::Rotate3DAlg(
                 origin, vec2, angle, coo->getNumberOfTuples(), coo->getPointer(), coo->getPointer()
             );
-- 
2.43.0


From 446d6b8c797641bcbe86cf2883680efc13ebfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:11 +0000
Subject: [PATCH 057/122] fix: SpreadCoarseToFine in 3D uses the factor of the
 second axis

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 2245183..1b2539d 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -793,7 +793,7 @@ MEDCouplingIMesh::SpreadCoarseToFine(
                 fineLocInCoarse[0].first + coarseSt[0] * fineLocInCoarse[1].first +
                 coarseSt[0] * coarseSt[1] * fineLocInCoarse[2].first
             ),
-                fact0(facts[0]), fact1(facts[2]), fact2(facts[2]);
+                fact0(facts[0]), fact1(facts[1]), fact2(facts[2]);
             for (int k = 0; k < dims[2]; k++)
             {
                 for (mcIdType kfact = 0; kfact < fact2; kfact++)
-- 
2.43.0


From e9bacc52ae0143d90948e25f7bbecbb02079849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:11 +0000
Subject: [PATCH 058/122] fix: createPatchesFromCriterion in 1D does not read a
 second axis

---
 src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx b/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
index ab604d6..0834fad 100644
--- a/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
@@ -1252,11 +1252,11 @@ FindInflection(
         distance.clear();
     }
 
-    if (zeroCrossDims[0] != -1 || zeroCrossDims[1] != -1)
+    if (zeroCrossDims[0] != -1 || (dim > 1 && zeroCrossDims[1] != -1))
     {
         mcIdType max_cross_dims = *max_element(zeroCrossVals.begin(), zeroCrossVals.end());
 
-        if (zeroCrossVals[0] == max_cross_dims && zeroCrossVals[1] == max_cross_dims)
+        if (dim > 1 && zeroCrossVals[0] == max_cross_dims && zeroCrossVals[1] == max_cross_dims)
         {
             mcIdType nl_left(part[0].second - part[0].first);
             mcIdType nc_left(part[1].second - part[1].first);
-- 
2.43.0


From 5288215b47b05445309074d4d77bbba4000076ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 059/122] fix: operations between a field and a scalar apply to
 both arrays of a linear time field

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i   | 32 ++++++++++------------
 src/MEDCoupling_Swig/MEDCouplingTypemaps.i | 26 +++++++-----------
 2 files changed, 25 insertions(+), 33 deletions(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 123bcd3..93fd49e 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -4710,10 +4710,8 @@ namespace MEDCoupling
             {
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              MCAuto<DataArrayDouble> ret=self->getArray()->deepCopy();
-              ret->applyLin(1.,-val);
-              MCAuto<MEDCouplingFieldDouble> ret2=self->clone(false);
-              ret2->setArray(ret);
+              MCAuto<MEDCouplingFieldDouble> ret2=self->clone(true);
+              ret2->applyLin(1.,-val);
               return ret2.retn();
             }
           case 2:
@@ -4794,10 +4792,8 @@ namespace MEDCoupling
                 throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble.__div__ : trying to divide by zero !");
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              MCAuto<DataArrayDouble> ret=self->getArray()->deepCopy();
-              ret->applyLin(1./val,0);
-              MCAuto<MEDCouplingFieldDouble> ret2=self->clone(false);
-              ret2->setArray(ret);
+              MCAuto<MEDCouplingFieldDouble> ret2=self->clone(true);
+              ret2->applyLin(1./val,0);
               return ret2.retn();
             }
           case 2:
@@ -4866,10 +4862,10 @@ namespace MEDCoupling
             {
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              MCAuto<DataArrayDouble> ret=self->getArray()->deepCopy();
-              ret->applyPow(val);
-              MCAuto<MEDCouplingFieldDouble> ret2=self->clone(false);
-              ret2->setArray(ret);
+              MCAuto<MEDCouplingFieldDouble> ret2=self->clone(true);
+              for(DataArrayDouble *arr : ret2->getArrays())
+                if(arr)
+                  arr->applyPow(val);
               return ret2.retn();
             }
           case 2:
@@ -4942,7 +4938,7 @@ namespace MEDCoupling
             {
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              self->getArray()->applyLin(1.,val);
+              self->applyLin(1.,val);
               Py_XINCREF(trueSelf);
               return trueSelf;
             }
@@ -5008,7 +5004,7 @@ namespace MEDCoupling
             {
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              self->getArray()->applyLin(1.,-val);
+              self->applyLin(1.,-val);
               Py_XINCREF(trueSelf);
               return trueSelf;
             }
@@ -5074,7 +5070,7 @@ namespace MEDCoupling
             {
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              self->getArray()->applyLin(val,0);
+              self->applyLin(val,0);
               Py_XINCREF(trueSelf);
               return trueSelf;
             }
@@ -5142,7 +5138,7 @@ namespace MEDCoupling
                 throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble.__idiv__ : trying to divide by zero !");
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              self->getArray()->applyLin(1./val,0);
+              self->applyLin(1./val,0);
               Py_XINCREF(trueSelf);
               return trueSelf;
             }
@@ -5208,7 +5204,9 @@ namespace MEDCoupling
             {
               if(!self->getArray())
                 throw INTERP_KERNEL::Exception(msg2);
-              self->getArray()->applyPow(val);
+              for(DataArrayDouble *arr : self->getArrays())
+                if(arr)
+                  arr->applyPow(val);
               Py_XINCREF(trueSelf);
               return trueSelf;
             }
diff --git a/src/MEDCoupling_Swig/MEDCouplingTypemaps.i b/src/MEDCoupling_Swig/MEDCouplingTypemaps.i
index c823377..df72e2c 100644
--- a/src/MEDCoupling_Swig/MEDCouplingTypemaps.i
+++ b/src/MEDCoupling_Swig/MEDCouplingTypemaps.i
@@ -261,10 +261,8 @@ static MEDCoupling::MEDCouplingFieldDouble *MEDCoupling_MEDCouplingFieldDouble__
       {
         if(!self->getArray())
           throw INTERP_KERNEL::Exception(msg2);
-        MEDCoupling::MCAuto<MEDCoupling::DataArrayDouble> ret=self->getArray()->deepCopy();
-        ret->applyLin(1.,val);
-        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(false);
-        ret2->setArray(ret);
+        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(true);
+        ret2->applyLin(1.,val);
         return ret2.retn();
       }
     case 2:
@@ -333,10 +331,8 @@ static MEDCoupling::MEDCouplingFieldDouble *MEDCoupling_MEDCouplingFieldDouble__
       {
         if(!self->getArray())
           throw INTERP_KERNEL::Exception(msg2);
-        MEDCoupling::MCAuto<MEDCoupling::DataArrayDouble> ret=self->getArray()->deepCopy();
-        ret->applyLin(-1.,val);
-        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(false);
-        ret2->setArray(ret);
+        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(true);
+        ret2->applyLin(-1.,val);
         return ret2.retn();
       }
     case 2:
@@ -400,10 +396,8 @@ static MEDCoupling::MEDCouplingFieldDouble *MEDCoupling_MEDCouplingFieldDouble__
       {
         if(!self->getArray())
           throw INTERP_KERNEL::Exception(msg2);
-        MEDCoupling::MCAuto<MEDCoupling::DataArrayDouble> ret=self->getArray()->deepCopy();
-        ret->applyLin(val,0.);
-        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(false);
-        ret2->setArray(ret);
+        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(true);
+        ret2->applyLin(val,0.);
         return ret2.retn();
       }
     case 2:
@@ -472,10 +466,10 @@ MEDCoupling::MEDCouplingFieldDouble *MEDCoupling_MEDCouplingFieldDouble___rdiv__
       {
         if(!self->getArray())
           throw INTERP_KERNEL::Exception(msg2);
-        MEDCoupling::MCAuto<MEDCoupling::DataArrayDouble> ret=self->getArray()->deepCopy();
-        ret->applyInv(val);
-        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(false);
-        ret2->setArray(ret);
+        MEDCoupling::MCAuto<MEDCoupling::MEDCouplingFieldDouble> ret2=self->clone(true);
+        for(MEDCoupling::DataArrayDouble *arr : ret2->getArrays())
+          if(arr)
+            arr->applyInv(val);
         return ret2.retn();
       }
     case 2:
-- 
2.43.0


From f5fc84492e8eeee5db7baad6d1a2620f2306ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 060/122] fix: part of a field on Gauss points given by a range
 of cells took the points of the next cell

---
 src/MEDCoupling/MEDCouplingFieldDiscretization.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
index 7acc2d4..fa2056f 100644
--- a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
@@ -2575,12 +2575,12 @@ MEDCouplingFieldDiscretizationGauss::buildSubMeshDataRange(
         {
             if (*w >= 0 && *w < nbMaxOfLocId)
             {
+                if (i >= endCellIds)
+                    break;
                 mcIdType delta = _loc[*w].getNumberOfGaussPt();
                 if (i < beginCellIds)
                     beginOut += delta;
                 endOut += delta;
-                if (i >= endCellIds)
-                    break;
             }
             else
             {
@@ -3724,12 +3724,12 @@ MEDCouplingFieldDiscretizationGaussNE::buildSubMeshDataRange(
             oss << msg << i << " presence of dynamic cell (polygons and polyedrons) ! Not implemented !";
             throw INTERP_KERNEL::Exception(oss.str().c_str());
         }
+        if (i >= endCellIds)
+            break;
         mcIdType delta = cm.getNumberOfNodes();
         if (i < beginCellIds)
             beginOut += delta;
         endOut += delta;
-        if (i >= endCellIds)
-            break;
     }
     MCAuto<MEDCouplingMesh> ret = mesh->buildPartRange(beginCellIds, endCellIds, stepCellIds);
     return ret.retn();
-- 
2.43.0


From a8aced8e51e632c35e77071369cc8f9c74d0d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 061/122] fix: MEDCouplingMultiFields.getDifferentArrays in
 Python mixed up the number of fields and of arrays

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 93fd49e..86caa28 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -5411,7 +5411,7 @@ namespace MEDCoupling
            std::vector<DataArrayDouble *> ms=self->getDifferentArrays(refs);
            std::size_t sz=ms.size();
            PyObject *res = PyList_New(sz);
-           PyObject *res2 = PyList_New(sz);
+           PyObject *res2 = PyList_New(refs.size());
            for(std::size_t i=0;i<sz;i++)
              {
                if(ms[i])
@@ -5423,8 +5423,9 @@ namespace MEDCoupling
                  {
                    PyList_SetItem(res,i,SWIG_NewPointerObj(SWIG_as_voidptr(0),SWIGTYPE_p_MEDCoupling__DataArrayDouble, 0 ));
                  }
-               PyList_SetItem(res2,i,convertIntArrToPyList2(refs[i]));
              }
+           for(std::size_t i=0;i<refs.size();i++)
+             PyList_SetItem(res2,i,convertIntArrToPyList2(refs[i]));
            //
            PyObject *ret=PyTuple_New(2);
            PyTuple_SetItem(ret,0,res);
-- 
2.43.0


From e07088c4dd7f9c925f83645965d61a0c560d95d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 062/122] fix: convertQuadraticCellsToLinear of a field keeps
 its time discretization

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index d11f06b..db20321 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -2105,9 +2105,16 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
             umesh->convertQuadraticCellsToLinear();
             MCAuto<DataArrayIdType> o2n(umesh->zipCoordsTraducer());
             MCAuto<DataArrayIdType> n2o(o2n->invertArrayO2N2N2O(umesh->getNumberOfNodes()));
-            MCAuto<DataArrayDouble> arr(getArray()->selectByTupleIdSafe(n2o->begin(), n2o->end()));
-            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_NODES));
-            ret->setArray(arr);
+            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_NODES, getTimeDiscretization()));
+            std::vector<DataArrayDouble *> arrs(getArrays());
+            std::vector<MCAuto<DataArrayDouble> > outArrsSafe(arrs.size());
+            std::vector<DataArrayDouble *> outArrs(arrs.size());
+            for (std::size_t j = 0; j < arrs.size(); j++)
+            {
+                outArrsSafe[j] = arrs[j]->selectByTupleIdSafe(n2o->begin(), n2o->end());
+                outArrs[j] = outArrsSafe[j];
+            }
+            ret->setArrays(outArrs);
             ret->setMesh(umesh);
             ret->copyAllTinyAttrFrom(this);
             return ret;
@@ -2121,8 +2128,8 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
             umesh = umesh->clone(false);
             umesh->convertQuadraticCellsToLinear();
             umesh->zipCoords();
-            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_CELLS));
-            ret->setArray(const_cast<DataArrayDouble *>(getArray()));
+            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_CELLS, getTimeDiscretization()));
+            ret->setArrays(getArrays());
             ret->setMesh(umesh);
             ret->copyAllTinyAttrFrom(this);
             return ret;
@@ -2134,7 +2141,7 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
                 throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble::convertQuadraticCellsToLinear : null mesh !");
             MCAuto<MEDCouplingUMesh> umesh(mesh->buildUnstructured());
             std::set<INTERP_KERNEL::NormalizedCellType> gt(umesh->getAllGeoTypes());
-            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_GAUSS_PT));
+            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_GAUSS_PT, getTimeDiscretization()));
             //
             const MEDCouplingFieldDiscretization *disc(getDiscretization());
             const MEDCouplingFieldDiscretizationGauss *disc2(
@@ -2190,7 +2197,7 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
             //
             if (isZipReq)
                 umesh->zipCoords();
-            ret->setArray(const_cast<DataArrayDouble *>(getArray()));
+            ret->setArrays(getArrays());
             ret->setMesh(umesh);
             for (std::vector<MEDCouplingGaussLocalization>::const_iterator it = glV.begin(); it != glV.end(); it++)
                 ret->setGaussLocalizationOnType(
-- 
2.43.0


From f42502fa7bebbc9bd4683ef37d81c05f60b99183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 063/122] fix: nodeToCellDiscretization counted the nodes of a
 polyhedron once per face

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index db20321..fc9baeb 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -244,6 +244,11 @@ MEDCouplingFieldDouble::nodeToCellDiscretization() const
         {
             std::vector<mcIdType> nodeIds;
             m->getNodeIdsOfCell(i, nodeIds);
+            if (m->getTypeOfCell(i) == INTERP_KERNEL::NORM_POLYHED)
+            {  // each node of a polyhedron is given once per face that contains it
+                std::sort(nodeIds.begin(), nodeIds.end());
+                nodeIds.erase(std::unique(nodeIds.begin(), nodeIds.end()), nodeIds.end());
+            }
             std::fill(pt, pt + nbCompo, 0.);
             std::size_t nbNodesInCell(nodeIds.size());
             for (std::size_t k = 0; k < nbNodesInCell; k++)
-- 
2.43.0


From e78f8714552f24634d36fb31a360e196fdb0c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 064/122] fix: MEDCouplingDefinitionTime left its time
 tolerance uninitialised for a single slice and did not copy it

---
 src/MEDCoupling/MEDCouplingDefinitionTime.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingDefinitionTime.cxx b/src/MEDCoupling/MEDCouplingDefinitionTime.cxx
index 953e268..9945993 100644
--- a/src/MEDCoupling/MEDCouplingDefinitionTime.cxx
+++ b/src/MEDCoupling/MEDCouplingDefinitionTime.cxx
@@ -542,6 +542,7 @@ MEDCouplingDefinitionTime::MEDCouplingDefinitionTime(
     const std::vector<int> &meshRefs,
     const std::vector<std::vector<int> > &arrRefs
 )
+    : _eps(EPS_DFT)
 {
     std::size_t sz = fs.size();
     if (sz != arrRefs.size())
@@ -558,10 +559,10 @@ MEDCouplingDefinitionTime::MEDCouplingDefinitionTime(
             );
         _slices[i] = MEDCouplingDefinitionTimeSlice::New(fs[i], meshRefs[i], arrRefs[i], i);
     }
-    if (sz <= 1)
+    if (sz == 0)
         return;
-    const MEDCouplingDefinitionTimeSlice *ref = _slices[0];
     _eps = fs[0]->getTimeTolerance();
+    const MEDCouplingDefinitionTimeSlice *ref = _slices[0];
     for (std::size_t i = 1; i < sz; i++)
     {
         if (!ref->isAfterMe(_slices[i], _eps))
@@ -597,6 +598,7 @@ MEDCouplingDefinitionTime::assign(const MEDCouplingDefinitionTime &other)
     std::size_t sz = other._slices.size();
     _slices.resize(sz);
     for (std::size_t i = 0; i < sz; i++) _slices[i] = other._slices[i]->copy();
+    _eps = other._eps;
 }
 
 bool
-- 
2.43.0


From 0c599336c53edd5fab89e2e657c7453bdd217695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 065/122] fix: getMeasureFieldOnNode shared the volume of a
 polyhedron by its nodes counted once per face

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index c111988..2dec7cf 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -4447,7 +4447,7 @@ MEDCouplingUMesh::getMeasureFieldOnNode(bool isAbs) const
     mcIdType nbNodes = getNumberOfNodes();
     MCAuto<DataArrayDouble> nnpc;
     {
-        MCAuto<DataArrayIdType> tmp2(computeNbOfNodesPerCell());
+        MCAuto<DataArrayIdType> tmp2(computeEffectiveNbOfNodesPerCell());
         nnpc = tmp2->convertToDblArr();
     }
     std::for_each(nnpc->rwBegin(), nnpc->rwEnd(), [](double &v) { v = 1. / v; });
-- 
2.43.0


From 35dd0fa86fdd3f996512f05942c084ea6964022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:57 +0000
Subject: [PATCH 066/122] fix: isEqual on arrays saw a NaN as equal to any
 value

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 3c3ed78..0626851 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -167,7 +167,7 @@ MemArray<T>::isEqual(const MemArray<T> &other, T prec, std::string &reason) cons
     if (pt1 == pt2)
         return true;
     for (std::size_t i = 0; i < _nb_of_elem; i++)
-        if (pt1[i] - pt2[i] < -prec || (pt1[i] - pt2[i]) > prec)
+        if (pt1[i] - pt2[i] < -prec || (pt1[i] - pt2[i]) > prec || (pt1[i] != pt1[i]) != (pt2[i] != pt2[i]))
         {
             oss << "The content of data differs at pos #" << i << " of coarse data ! this[i]=" << pt1[i]
                 << " other[i]=" << pt2[i];
-- 
2.43.0


From c896f3df6af63bb58894a343b326018d7db3f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:57 +0000
Subject: [PATCH 067/122] fix: serialization of fields of integers and of
 floats lost their time, iteration and order

---
 .../MEDCouplingTimeDiscretization.hxx         |  7 +++++
 .../MEDCouplingTimeDiscretization.txx         | 31 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx b/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx
index 4a42547..e551441 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx
@@ -307,6 +307,13 @@ class MEDCouplingTimeDiscretizationSimple : public MEDCouplingTimeDiscretization
     void setEndTimeValue(double time);
     void setEndTime(double time, int iteration, int order);
     TypeOfTimeDiscretization getEnum() const { return DISCRETIZATION; }
+    void getTinySerializationIntInformation(std::vector<mcIdType> &tinyInfo) const override;
+    void getTinySerializationDbleInformation(std::vector<double> &tinyInfo) const override;
+    void finishUnserialization(
+        const std::vector<mcIdType> &tinyInfoI,
+        const std::vector<double> &tinyInfoD,
+        const std::vector<std::string> &tinyInfoS
+    ) override;
 
    protected:
     MEDCouplingTimeDiscretizationSimple(const MEDCouplingTimeDiscretizationSimple<T> &other, bool deepCopy);
diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
index 850486a..7004d0a 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
@@ -356,6 +356,37 @@ MEDCouplingTimeDiscretizationSimple<T>::getStringRepr() const
     return stream.str();
 }
 
+template <class T>
+void
+MEDCouplingTimeDiscretizationSimple<T>::getTinySerializationIntInformation(std::vector<mcIdType> &tinyInfo) const
+{
+    MEDCouplingTimeDiscretizationTemplate<T>::getTinySerializationIntInformation(tinyInfo);
+    tinyInfo.push_back(_tk.getIteration());
+    tinyInfo.push_back(_tk.getOrder());
+}
+
+template <class T>
+void
+MEDCouplingTimeDiscretizationSimple<T>::getTinySerializationDbleInformation(std::vector<double> &tinyInfo) const
+{
+    MEDCouplingTimeDiscretizationTemplate<T>::getTinySerializationDbleInformation(tinyInfo);
+    tinyInfo.push_back(_tk.getTimeValue());
+}
+
+template <class T>
+void
+MEDCouplingTimeDiscretizationSimple<T>::finishUnserialization(
+    const std::vector<mcIdType> &tinyInfoI,
+    const std::vector<double> &tinyInfoD,
+    const std::vector<std::string> &tinyInfoS
+)
+{
+    MEDCouplingTimeDiscretizationTemplate<T>::finishUnserialization(tinyInfoI, tinyInfoD, tinyInfoS);
+    _tk.setTimeValue(tinyInfoD[1]);
+    _tk.setIteration(FromIdType<int>(tinyInfoI[2]));
+    _tk.setOrder(FromIdType<int>(tinyInfoI[3]));
+}
+
 template <class T>
 double
 MEDCouplingTimeDiscretizationSimple<T>::getEndTime(int &iteration, int &order) const
-- 
2.43.0


From 44f3dca2b3e421abcac2b7b18d0e1bf1f61b0cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 068/122] fix: serialization of mapped extruded meshes lost
 their time label and those of the underlying meshes

---
 .../MEDCouplingMappedExtrudedMesh.cxx         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 3585114..1ea60ae 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -1015,9 +1015,17 @@ MEDCouplingMappedExtrudedMesh::getTinySerializationInformation(
     littleStrings.insert(littleStrings.end(), ls1.begin(), ls1.end());
     tinyInfo.insert(tinyInfo.end(), tinyInfo2.begin(), tinyInfo2.end());
     littleStrings.insert(littleStrings.end(), ls2.begin(), ls2.end());
+    int iteration, order;
+    const double time(getTime(iteration, order));
+    tinyInfoD = ls3;
+    tinyInfoD.insert(tinyInfoD.end(), ls4.begin(), ls4.end());
+    tinyInfoD.push_back(time);
+    tinyInfo.push_back(iteration);
+    tinyInfo.push_back(order);
     tinyInfo.push_back(_cell_2D_id);
     tinyInfo.push_back(ToIdType(tinyInfo1.size()));
     tinyInfo.push_back(_mesh3D_ids->getNbOfElems());
+    littleStrings.push_back(getTimeUnit());
     littleStrings.push_back(getName());
     littleStrings.push_back(getDescription());
 }
@@ -1033,7 +1041,7 @@ MEDCouplingMappedExtrudedMesh::resizeForUnserialization(
     std::size_t sz = tinyInfo.size();
     mcIdType sz1 = tinyInfo[sz - 2];
     std::vector<mcIdType> ti1(tinyInfo.begin(), tinyInfo.begin() + sz1);
-    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 3);
+    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 5);
     MEDCouplingUMesh *um = MEDCouplingUMesh::New();
     DataArrayIdType *a1tmp = DataArrayIdType::New();
     DataArrayDouble *a2tmp = DataArrayDouble::New();
@@ -1055,7 +1063,7 @@ MEDCouplingMappedExtrudedMesh::resizeForUnserialization(
     //
     a1->alloc(la1 + tinyInfo[sz - 1], 1);
     a2->alloc(la2, 1);
-    littleStrings.resize(ls1.size() + ls2.size() + 2);
+    littleStrings.resize(ls1.size() + ls2.size() + 3);
 }
 
 void
@@ -1091,13 +1099,15 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     const std::vector<std::string> &littleStrings
 )
 {
+    setTimeUnit(littleStrings[littleStrings.size() - 3]);
     setName(littleStrings[littleStrings.size() - 2]);
     setDescription(littleStrings.back());
     std::size_t sz = tinyInfo.size();
+    setTime(tinyInfoD[2], FromIdType<int>(tinyInfo[sz - 5]), FromIdType<int>(tinyInfo[sz - 4]));
     mcIdType sz1 = tinyInfo[sz - 2];
     _cell_2D_id = tinyInfo[sz - 3];
     std::vector<mcIdType> ti1(tinyInfo.begin(), tinyInfo.begin() + sz1);
-    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 3);
+    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 5);
     DataArrayIdType *a1tmp = DataArrayIdType::New();
     DataArrayDouble *a2tmp = DataArrayDouble::New();
     const mcIdType *a1Ptr = a1->begin();
@@ -1110,13 +1120,13 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     a2Ptr += a2tmp->getNbOfElems();
     a1Ptr += a1tmp->getNbOfElems();
     ls2.insert(ls2.end(), littleStrings.begin(), littleStrings.begin() + ls1.size());
-    std::vector<double> d1(1);
+    std::vector<double> d1(1, tinyInfoD[0]), d2(1, tinyInfoD[1]);
     _mesh2D->unserialization(d1, ti1, a1tmp, a2tmp, ls2);
     a1tmp->decrRef();
     a2tmp->decrRef();
     //
     ls2.clear();
-    ls2.insert(ls2.end(), littleStrings.begin() + ls1.size(), littleStrings.end() - 2);
+    ls2.insert(ls2.end(), littleStrings.begin() + ls1.size(), littleStrings.end() - 3);
     _mesh1D = MEDCouplingUMesh::New();
     a1tmp = DataArrayIdType::New();
     a2tmp = DataArrayDouble::New();
@@ -1124,7 +1134,7 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     std::copy(a2Ptr, a2Ptr + a2tmp->getNbOfElems(), a2tmp->getPointer());
     std::copy(a1Ptr, a1Ptr + a1tmp->getNbOfElems(), a1tmp->getPointer());
     a1Ptr += a1tmp->getNbOfElems();
-    _mesh1D->unserialization(d1, ti2, a1tmp, a2tmp, ls2);
+    _mesh1D->unserialization(d2, ti2, a1tmp, a2tmp, ls2);
     a1tmp->decrRef();
     a2tmp->decrRef();
     //
-- 
2.43.0


From 08d8a5fb671a55366ba0eb343f8eb3f469cd8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:20 +0000
Subject: [PATCH 069/122] fix: IMesh::isEqualIfNotWhy gives its reason when the
 space dimensions differ

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 1b2539d..8ed9223 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -1186,6 +1186,7 @@ MEDCouplingIMesh::isEqualWithoutConsideringStrInternal(
         std::ostringstream oss;
         oss << "The spaceDimension of this (" << _space_dim << ") is not equal to those of other ("
             << otherC->_space_dim << ") !";
+        reason = oss.str();
         return false;
     }
     checkSpaceDimension();
-- 
2.43.0


From f0747c4d5e6b10ecdaf2e573ad031f8b7b782a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:46 +0000
Subject: [PATCH 070/122] fix: MEDCoupling1DGTUMesh equality ignored the
 connectivity index

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 30 ++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 3df1fc0..758747a 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -2928,17 +2928,18 @@ MEDCoupling1DGTUMesh::isEqualIfNotWhy(const MEDCouplingMesh *other, double prec,
     if (!MEDCoupling1GTUMesh::isEqualIfNotWhy(other, prec, reason))
         return false;
     const DataArrayIdType *c1(_conn), *c2(otherC->_conn);
-    if (c1 == c2)
-        return true;
-    if (!c1 || !c2)
-    {
-        reason = "in connectivity of single dynamic geometric type exactly one among this and other is null !";
-        return false;
-    }
-    if (!c1->isEqualIfNotWhy(*c2, reason))
+    if (c1 != c2)
     {
-        reason.insert(0, "Nodal connectivity DataArrayIdType differs : ");
-        return false;
+        if (!c1 || !c2)
+        {
+            reason = "in connectivity of single dynamic geometric type exactly one among this and other is null !";
+            return false;
+        }
+        if (!c1->isEqualIfNotWhy(*c2, reason))
+        {
+            reason.insert(0, "Nodal connectivity DataArrayIdType differs : ");
+            return false;
+        }
     }
     c1 = _conn_indx;
     c2 = otherC->_conn_indx;
@@ -2970,6 +2971,15 @@ MEDCoupling1DGTUMesh::isEqualWithoutConsideringStr(const MEDCouplingMesh *other,
     if (!MEDCoupling1GTUMesh::isEqualWithoutConsideringStr(other, prec))
         return false;
     const DataArrayIdType *c1(_conn), *c2(otherC->_conn);
+    if (c1 != c2)
+    {
+        if (!c1 || !c2)
+            return false;
+        if (!c1->isEqualWithoutConsideringStr(*c2))
+            return false;
+    }
+    c1 = _conn_indx;
+    c2 = otherC->_conn_indx;
     if (c1 == c2)
         return true;
     if (!c1 || !c2)
-- 
2.43.0


From acf0b52970efca230cd58dd541dd840152f7b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:35 +0000
Subject: [PATCH 071/122] fix: isEqualIfNotWhy on arrays of bytes failed in
 Python when differing bytes are not text

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 0626851..ec74603 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -169,8 +169,8 @@ MemArray<T>::isEqual(const MemArray<T> &other, T prec, std::string &reason) cons
     for (std::size_t i = 0; i < _nb_of_elem; i++)
         if (pt1[i] - pt2[i] < -prec || (pt1[i] - pt2[i]) > prec || (pt1[i] != pt1[i]) != (pt2[i] != pt2[i]))
         {
-            oss << "The content of data differs at pos #" << i << " of coarse data ! this[i]=" << pt1[i]
-                << " other[i]=" << pt2[i];
+            oss << "The content of data differs at pos #" << i << " of coarse data ! this[i]=" << +pt1[i]
+                << " other[i]=" << +pt2[i];
             reason = oss.str();
             return false;
         }
-- 
2.43.0


From 3d111265b02514411eee950761fa0c6cb3c6a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:08 +0000
Subject: [PATCH 072/122] fix: deepCopy of MEDCouplingMultiFields lost the time
 units of its fields

---
 src/MEDCoupling/MEDCouplingMultiFields.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingMultiFields.cxx b/src/MEDCoupling/MEDCouplingMultiFields.cxx
index ba14674..3cb087d 100644
--- a/src/MEDCoupling/MEDCouplingMultiFields.cxx
+++ b/src/MEDCoupling/MEDCouplingMultiFields.cxx
@@ -386,6 +386,7 @@ MEDCouplingMultiFields::MEDCouplingMultiFields(const MEDCouplingMultiFields &oth
             other._fs[i]->getTimeDiscretizationUnderGround()->getTinySerializationIntInformation2(tinyInfo);
             other._fs[i]->getTimeDiscretizationUnderGround()->getTinySerializationDbleInformation2(tinyInfo2);
             _fs[i]->getTimeDiscretizationUnderGround()->finishUnserialization2(tinyInfo, tinyInfo2);
+            _fs[i]->setTimeUnit(other._fs[i]->getTimeUnit());
         }
     }
 }
-- 
2.43.0


From bdeac1f91dfddb131997cc78c4b34f81bce6dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:08 +0000
Subject: [PATCH 073/122] fix: deepCopy of MEDCouplingFieldOverTime returned a
 plain MEDCouplingMultiFields

---
 src/MEDCoupling/MEDCouplingFieldOverTime.cxx | 6 ++++++
 src/MEDCoupling/MEDCouplingFieldOverTime.hxx | 1 +
 src/MEDCoupling/MEDCouplingMultiFields.hxx   | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldOverTime.cxx b/src/MEDCoupling/MEDCouplingFieldOverTime.cxx
index 52bcfae..a78c695 100644
--- a/src/MEDCoupling/MEDCouplingFieldOverTime.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldOverTime.cxx
@@ -31,6 +31,12 @@ MEDCouplingFieldOverTime::New(const std::vector<MEDCouplingFieldDouble *> &fs)
     return new MEDCouplingFieldOverTime(fs);
 }
 
+MEDCouplingFieldOverTime *
+MEDCouplingFieldOverTime::deepCopy() const
+{
+    return new MEDCouplingFieldOverTime(*this);
+}
+
 double
 MEDCouplingFieldOverTime::getTimeTolerance() const
 {
diff --git a/src/MEDCoupling/MEDCouplingFieldOverTime.hxx b/src/MEDCoupling/MEDCouplingFieldOverTime.hxx
index 4ac5e62..235cedf 100644
--- a/src/MEDCoupling/MEDCouplingFieldOverTime.hxx
+++ b/src/MEDCoupling/MEDCouplingFieldOverTime.hxx
@@ -33,6 +33,7 @@ class MEDCouplingFieldOverTime : public MEDCouplingMultiFields
 {
    public:
     MEDCOUPLING_EXPORT static MEDCouplingFieldOverTime *New(const std::vector<MEDCouplingFieldDouble *> &fs);
+    MEDCOUPLING_EXPORT MEDCouplingFieldOverTime *deepCopy() const;
     MEDCOUPLING_EXPORT void checkConsistencyLight() const;
     MEDCOUPLING_EXPORT double getTimeTolerance() const;
     MEDCOUPLING_EXPORT std::string simpleRepr() const;
diff --git a/src/MEDCoupling/MEDCouplingMultiFields.hxx b/src/MEDCoupling/MEDCouplingMultiFields.hxx
index 4ffad1c..f8b82d6 100644
--- a/src/MEDCoupling/MEDCouplingMultiFields.hxx
+++ b/src/MEDCoupling/MEDCouplingMultiFields.hxx
@@ -43,7 +43,7 @@ class MEDCouplingMultiFields : public RefCountObject, public TimeLabel
     MEDCOUPLING_EXPORT static MEDCouplingMultiFields *New(const std::vector<MEDCouplingFieldDouble *> &fs);
     MEDCOUPLING_EXPORT static MEDCouplingMultiFields *New();
     std::string getClassName() const override { return std::string("MEDCouplingMultiFields"); }
-    MEDCOUPLING_EXPORT MEDCouplingMultiFields *deepCopy() const;
+    MEDCOUPLING_EXPORT virtual MEDCouplingMultiFields *deepCopy() const;
     MEDCOUPLING_EXPORT std::string getName() const;
     MEDCOUPLING_EXPORT std::string getDescription() const;
     MEDCOUPLING_EXPORT std::string getTimeUnit() const;
-- 
2.43.0


From 8f60ec5c141e9a4a7a6fcaa1163ed22f043b0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:51 +0000
Subject: [PATCH 074/122] fix: writeVTK of image meshes rounded origin and
 spacing to 6 digits

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 8ed9223..d1182d9 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -1664,6 +1664,8 @@ MEDCouplingIMesh::writeVTKLL(
 {
     checkConsistencyLight();
     std::ostringstream extent, origin, spacing;
+    origin.precision(17);
+    spacing.precision(17);
     for (int i = 0; i < 3; i++)
     {
         if (i < _space_dim)
-- 
2.43.0


From eb05ded3ca8f6239970b753b3acc769609a55e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:52 +0000
Subject: [PATCH 075/122] fix: writeVTHB wrote under another name than the one
 it returns, and rounded origin and spacing to 6 digits

---
 src/MEDCoupling/MEDCouplingAMRAttribute.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingAMRAttribute.cxx b/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
index 3b51def..ce9099c 100644
--- a/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
+++ b/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
@@ -1393,7 +1393,8 @@ MEDCouplingAMRAttribute::writeVTHB(const std::string &fileName) const
         zeFileName += EXT;
     }
     //
-    std::ofstream ofs(fileName.c_str());
+    std::ofstream ofs(zeFileName.c_str());
+    ofs.precision(17);
     ofs << "<VTKFile type=\"vtkOverlappingAMR\" version=\"1.1\" byte_order=\"" << MEDCouplingByteOrderStr() << "\">\n";
     const MEDCouplingCartesianAMRMesh *gf(getMyGodFather());
     ofs << "  <vtkOverlappingAMR origin=\"";
-- 
2.43.0


From 37557137f824287cbbd9668387711121924f1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 076/122] fix: writeVTHB read out of bounds when the first grid
 of a level is not refined

---
 src/MEDCoupling/MEDCouplingAMRAttribute.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingAMRAttribute.cxx b/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
index ce9099c..8133615 100644
--- a/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
+++ b/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
@@ -1427,7 +1427,13 @@ MEDCouplingAMRAttribute::writeVTHB(const std::string &fileName) const
         ofs << "\">\n";
         if (i != maxLev - 1)
         {
-            std::vector<mcIdType> factors(patches[0]->getMesh()->getFactors());
+            // factors are defined only on grids having patches
+            std::vector<mcIdType> factors;
+            for (std::size_t j = 0; j < sz && factors.empty(); j++)
+                if (patches[j]->getMesh()->getNumberOfPatches() > 0)
+                    factors = patches[j]->getMesh()->getFactors();
+            if (ToIdType(factors.size()) != dim)
+                throw INTERP_KERNEL::Exception("MEDCouplingAMRAttribute::writeVTHB : no factors on a refined level !");
             for (mcIdType k = 0; k < dim; k++) spacing[k] *= 1. / ((double)factors[k]);
         }
         std::size_t jj(0);
-- 
2.43.0


From 080b19ceb0dbc42dbd5234e90a0451591ea65e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 077/122] fix: WriteVTK dereferenced NULL fields and NULL
 arrays

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index fc9baeb..db58707 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -3265,7 +3265,7 @@ MEDCouplingFieldDouble::WriteVTK(
     if (!m)
         throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble::WriteVTK : 1st instance of field lies on NULL mesh !");
     for (std::size_t i = 1; i < nfs; i++)
-        if (fs[i]->getMesh() != m)
+        if (!fs[i] || fs[i]->getMesh() != m)
             throw INTERP_KERNEL::Exception(
                 "MEDCouplingFieldDouble::WriteVTK : Fields are not lying on a same mesh ! Expected by VTK ! "
                 "MEDCouplingFieldDouble::setMesh or MEDCouplingFieldDouble::changeUnderlyingMesh can help to that."
@@ -3292,6 +3292,12 @@ MEDCouplingFieldDouble::WriteVTK(
             oss << "MEDCouplingFieldDouble::WriteVTK : Field in pos #" << i << " has no name !";
             throw INTERP_KERNEL::Exception(oss.str());
         }
+        if (!cur->getArray())
+        {
+            std::ostringstream oss;
+            oss << "MEDCouplingFieldDouble::WriteVTK : Field in pos #" << i << " has no array !";
+            throw INTERP_KERNEL::Exception(oss.str());
+        }
         TypeOfField typ = cur->getTypeOfField();
         if (typ == ON_CELLS)
             cur->getArray()->writeVTK(coss, 8, cur->getName(), byteArr);
-- 
2.43.0


From 176fca962f72c53d90d344b6d65bc02c41363ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 078/122] fix: writeVTK silently ignored a file that cannot be
 written

---
 src/MEDCoupling/MEDCouplingMesh.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMesh.cxx b/src/MEDCoupling/MEDCouplingMesh.cxx
index 63334b6..301bfe3 100644
--- a/src/MEDCoupling/MEDCouplingMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMesh.cxx
@@ -822,6 +822,12 @@ MEDCouplingMesh::writeVTKAdvanced(
 ) const
 {
     std::ofstream ofs(fileName.c_str());
+    if (!ofs)
+    {
+        std::ostringstream oss;
+        oss << "MEDCouplingMesh::writeVTK : impossible to open file \"" << fileName << "\" for writing !";
+        throw INTERP_KERNEL::Exception(oss.str());
+    }
     ofs << "<VTKFile type=\"" << getVTKDataSetType() << "\" version=\"0.1\" byte_order=\"" << MEDCouplingByteOrderStr()
         << "\">\n";
     writeVTKLL(ofs, cda, pda, byteData);
-- 
2.43.0


From d48db8a74851427dae228c09ee48c1b6c2b8ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 079/122] fix: errors of DataArray.LoadForDbg and writeForDbg
 ended the Python interpreter

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index ec74603..63b4bf1 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -2835,13 +2835,13 @@ DataArrayTemplate<T>::writeForDbg(const std::string &fileName) const
     std::size_t nbCompo(getNumberOfComponents());
     std::ofstream outFile(fileName, std::ios::binary);
     char szOfData(sizeof(Type));
-    outFile.exceptions(std::ios::failbit | std::ios::badbit);
-    {
-        outFile.write(&szOfData, 1);
-        outFile.write(reinterpret_cast<const char *>(&nbTuples), sizeof(mcIdType));
-        outFile.write(reinterpret_cast<const char *>(&nbCompo), sizeof(std::size_t));
-        outFile.write(reinterpret_cast<const char *>(begin()), nbCompo * nbTuples * sizeof(Type));
-    }
+    outFile.write(&szOfData, 1);
+    outFile.write(reinterpret_cast<const char *>(&nbTuples), sizeof(mcIdType));
+    outFile.write(reinterpret_cast<const char *>(&nbCompo), sizeof(std::size_t));
+    outFile.write(reinterpret_cast<const char *>(begin()), nbCompo * nbTuples * sizeof(Type));
+    outFile.flush();
+    if (!outFile)
+        THROW_IK_EXCEPTION("Error on write of file \"" << fileName << "\" !");
 }
 
 template <class T>
@@ -2850,7 +2850,8 @@ DataArrayTemplate<T>::LoadForDbg(const std::string &fileName)
 {
     MCAuto<typename Traits<T>::ArrayTypeCh> ret(Traits<T>::ArrayTypeCh::New());
     std::ifstream inFile(fileName, std::ios::binary);
-    inFile.exceptions(std::ios::failbit | std::ios::badbit);
+    if (!inFile)
+        THROW_IK_EXCEPTION("Impossible to read file \"" << fileName << "\" !");
     inFile.seekg(0, std::ios::end);
     mcIdType fileSize(ToIdType(inFile.tellg()));
     if (fileSize < 1 + ToIdType(sizeof(std::size_t)) + ToIdType(sizeof(mcIdType)))
@@ -2867,7 +2868,8 @@ DataArrayTemplate<T>::LoadForDbg(const std::string &fileName)
     inFile.read(reinterpret_cast<char *>(&nbTuples), sizeof(mcIdType));
     std::size_t nbCompo(0);
     inFile.read(reinterpret_cast<char *>(&nbCompo), sizeof(std::size_t));
-    ret->alloc(nbTuples, nbCompo);
+    if (!inFile || nbTuples < 0 || ToIdType(nbCompo) < 0)
+        THROW_IK_EXCEPTION("Input file \"" << fileName << "\" is invalid !");
     mcIdType sizeOfDataToRead(ToIdType(nbCompo) * nbTuples * szOfData);
     mcIdType sizeExpected(1 + ToIdType(sizeof(std::size_t)) + ToIdType(sizeof(mcIdType)) + sizeOfDataToRead);
     if (fileSize != sizeExpected)
@@ -2875,7 +2877,10 @@ DataArrayTemplate<T>::LoadForDbg(const std::string &fileName)
             "Input file \"" << fileName << "\" length is invalid : Size expected " << sizeExpected
                             << " actual : " << fileSize
         );
+    ret->alloc(nbTuples, nbCompo);
     inFile.read(reinterpret_cast<char *>(ret->getPointer()), sizeOfDataToRead);
+    if (!inFile)
+        THROW_IK_EXCEPTION("Error on read of file \"" << fileName << "\" !");
     return ret;
 }
 
-- 
2.43.0


From 1e514c76a0b318a6b95e00fcafb366e5d2305104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 080/122] fix: a dot in the name of a directory was seen as the
 extension of the file by writeVTHB

---
 src/MEDCoupling/MEDCouplingMesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingMesh.cxx b/src/MEDCoupling/MEDCouplingMesh.cxx
index 301bfe3..862c154 100644
--- a/src/MEDCoupling/MEDCouplingMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMesh.cxx
@@ -855,7 +855,8 @@ void
 MEDCouplingMesh::SplitExtension(const std::string &fileName, std::string &baseName, std::string &extension)
 {
     std::size_t pos(fileName.find_last_of('.'));
-    if (pos == std::string::npos)
+    const std::size_t sep(fileName.find_last_of("/\\"));
+    if (pos == std::string::npos || (sep != std::string::npos && sep > pos))
     {
         baseName = fileName;
         extension.clear();
-- 
2.43.0


From 3a0694a12a31a1cfa81d18bf9c32cf420bc835b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:44 +0000
Subject: [PATCH 081/122] fix: METIS renumbering called METIS 5 with the
 arguments of METIS 4 and returned zeros after reading out of bounds

---
 src/RENUMBER/RENUMBER_METISRenumbering.cxx | 28 +++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/RENUMBER/RENUMBER_METISRenumbering.cxx b/src/RENUMBER/RENUMBER_METISRenumbering.cxx
index 45d4b2c..08f00e2 100644
--- a/src/RENUMBER/RENUMBER_METISRenumbering.cxx
+++ b/src/RENUMBER/RENUMBER_METISRenumbering.cxx
@@ -54,26 +54,42 @@ METISRenumbering::renumber(
     out1->alloc(nbCell, 1);
     out0->fillWithZero();
     out1->fillWithZero();
-    int num_flag = 1;
-    int options = 0;
+    if (nbCell == 0)
+    {
+        iperm = out0.retn();
+        perm = out1.retn();
+        return;
+    }
+#if defined(METIS_VER_MAJOR) && METIS_VER_MAJOR >= 5
+    // since METIS 5 : 4th parameter is the (optional) weights of vertices, 5th one is the (optional) array of options
+    idx_t *num_flag = nullptr, *options = nullptr;
+#else
+    int num_flag_val = 0, options_val = 0;
+    int *num_flag = &num_flag_val, *options = &options_val;
+#endif
 
 #if ID_TYPE_SIZE == IDXTYPEWIDTH
 
-    METIS_NodeND(
-        &nbCell, (idx_t *)index_graph, (idx_t *)graph, &num_flag, &options, out0->getPointer(), out1->getPointer()
+    const int status = METIS_NodeND(
+        &nbCell, (idx_t *)index_graph, (idx_t *)graph, num_flag, options, out0->getPointer(), out1->getPointer()
     );
 
 #else
 
-    mcIdType indexSize = nbCell + 1, graphSize = index_graph[indexSize];
+    mcIdType indexSize = nbCell + 1, graphSize = index_graph[nbCell];
     std::vector<idx_t> indexVec(index_graph, index_graph + indexSize);
     std::vector<idx_t> graphVec(graph, graph + graphSize);
     std::vector<idx_t> out0Vec(nbCell), out1Vec(nbCell);
     idx_t nb = static_cast<idx_t>(nbCell);
-    METIS_NodeND(&nb, indexVec.data(), graphVec.data(), &num_flag, &options, out0Vec.data(), out1Vec.data());
+    const int status =
+        METIS_NodeND(&nb, indexVec.data(), graphVec.data(), num_flag, options, out0Vec.data(), out1Vec.data());
     std::copy(out0Vec.begin(), out0Vec.end(), out0->getPointer());
     std::copy(out1Vec.begin(), out1Vec.end(), out1->getPointer());
 
+#endif
+#if defined(METIS_VER_MAJOR) && METIS_VER_MAJOR >= 5
+    if (status != METIS_OK)
+        throw INTERP_KERNEL::Exception("METISRenumbering::renumber : METIS_NodeND failed !");
 #endif
 
     iperm = out0.retn();
-- 
2.43.0


From ffea75f1147e905492f80cb01b0a55db9219e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:51 +0000
Subject: [PATCH 082/122] fix: pickling a MEDFileUMesh lost names, global
 numbers and time unit, and corrupted definitions of parts

---
 src/MEDLoader/MEDFileMesh.cxx   | 18 +++++++++++---
 src/MEDLoader/MEDFileMeshLL.cxx | 43 ++++++++++++++++++++++++++++++++-
 src/MEDLoader/MEDFileMeshLL.hxx |  2 ++
 3 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index f40aec9..f864d69 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -6083,8 +6083,8 @@ MEDFileUMesh::serialize(
     {
         std::vector<mcIdType> tmp0;
         pd->serialize(tmp0, bigArraysI);
-        tinyInt.push_back(ToIdType(tmp0.size()));
-        tinyInt.insert(tinyInt.end(), tmp0.begin(), tmp0.end());
+        layer0.push_back(ToIdType(tmp0.size()));
+        layer0.insert(layer0.end(), tmp0.begin(), tmp0.end());
     }
     //
     std::vector<mcIdType> layer1;
@@ -6096,6 +6096,9 @@ MEDFileUMesh::serialize(
         const MEDFileUMeshSplitL1 *lev(getMeshAtLevSafe(*it));
         lev->serialize(layer1, bigArraysI);
     }
+    tinyStr.push_back(_dt_unit);
+    bigArraysI.push_back(_global_num_coords);
+    bigArraysI.push_back(MEDFileUMeshSplitL1::SerializeNames(_name_coords));
     // put layers all together.
     tinyInt.push_back(ToIdType(layer0.size()));
     tinyInt.insert(tinyInt.end(), layer0.begin(), layer0.end());
@@ -6179,8 +6182,8 @@ MEDFileUMesh::unserialize(
     layer0.pop_back();
     if (isPd != -1)
     {
-        std::vector<mcIdType> tmp0(layer0.begin(), layer0.begin() + isPd);
-        layer0.erase(layer0.begin(), layer0.begin() + isPd);
+        std::vector<mcIdType> tmp0(layer0.rbegin(), layer0.rbegin() + isPd);
+        layer0.erase(layer0.end() - isPd, layer0.end());
         _part_coords = PartDefinition::Unserialize(tmp0, bigArraysI);
     }
     if (!layer0.empty())
@@ -6199,6 +6202,13 @@ MEDFileUMesh::unserialize(
         mcIdType pos(-lev);
         _ms[pos] = MEDFileUMeshSplitL1::Unserialize(_name, _coords, layer1, bigArraysI);
     }
+    _dt_unit = tinyStr.back();
+    tinyStr.pop_back();
+    _global_num_coords = bigArraysI.back();
+    bigArraysI.pop_back();
+    _name_coords = MEDFileUMeshSplitL1::UnserializeNames(bigArraysI.back());
+    bigArraysI.pop_back();
+    computeRevNum();
 }
 
 /*!
diff --git a/src/MEDLoader/MEDFileMeshLL.cxx b/src/MEDLoader/MEDFileMeshLL.cxx
index 9746d25..5762f12 100644
--- a/src/MEDLoader/MEDFileMeshLL.cxx
+++ b/src/MEDLoader/MEDFileMeshLL.cxx
@@ -2265,9 +2265,42 @@ MEDFileUMeshSplitL1::serialize(std::vector<mcIdType> &tinyInt, std::vector<MCAut
 {
     bigArraysI.push_back(_fam);
     bigArraysI.push_back(_num);
+    bigArraysI.push_back(SerializeNames(_names));
     _m_by_types.serialize(tinyInt, bigArraysI);
 }
 
+/*!
+ * The content of \a names as a flat array of integers preceded by the size of a name. Null if \a names is null.
+ */
+MCAuto<DataArrayIdType>
+MEDFileUMeshSplitL1::SerializeNames(const DataArrayAsciiChar *names)
+{
+    MCAuto<DataArrayIdType> ret;
+    if (!names)
+        return ret;
+    ret = DataArrayIdType::New();
+    ret->alloc(ToIdType(names->getNbOfElems()) + 1, 1);
+    ret->setIJ(0, 0, ToIdType(names->getNumberOfComponents()));
+    std::copy(names->begin(), names->end(), ret->getPointer() + 1);
+    return ret;
+}
+
+/*!
+ * The reverse of MEDFileUMeshSplitL1::SerializeNames.
+ */
+MCAuto<DataArrayAsciiChar>
+MEDFileUMeshSplitL1::UnserializeNames(const DataArrayIdType *names)
+{
+    MCAuto<DataArrayAsciiChar> ret;
+    if (!names)
+        return ret;
+    ret = DataArrayAsciiChar::New();
+    mcIdType nameSize(names->getIJ(0, 0));
+    ret->alloc((ToIdType(names->getNbOfElems()) - 1) / nameSize, nameSize);
+    std::copy(names->begin() + 1, names->end(), ret->getPointer());
+    return ret;
+}
+
 void
 MEDFileUMeshSplitL1::unserialize(
     const std::string &name,
@@ -2280,6 +2313,10 @@ MEDFileUMeshSplitL1::unserialize(
     bigArraysI.pop_back();
     _num = bigArraysI.back();
     bigArraysI.pop_back();
+    if (_num.isNotNull())
+        computeRevNum();
+    _names = UnserializeNames(bigArraysI.back());
+    bigArraysI.pop_back();
     _m_by_types.unserialize(name, coo, tinyInt, bigArraysI);
 }
 
@@ -2820,7 +2857,11 @@ MEDFileUMeshAggregateCompute::unserialize(
         mcIdType pdid(tinyInt.back());
         tinyInt.pop_back();
         if (pdid != -1)
-            _part_def[i] = PartDefinition::Unserialize(tinyInt, bigArraysI);
+        {
+            std::vector<mcIdType> tmp(tinyInt.rbegin(), tinyInt.rbegin() + pdid);
+            tinyInt.erase(tinyInt.end() - pdid, tinyInt.end());
+            _part_def[i] = PartDefinition::Unserialize(tmp, bigArraysI);
+        }
         _mp_time = std::max(_mp_time, _m_time) + 1;
     }
 }
diff --git a/src/MEDLoader/MEDFileMeshLL.hxx b/src/MEDLoader/MEDFileMeshLL.hxx
index 37ffb50..7f16dcd 100644
--- a/src/MEDLoader/MEDFileMeshLL.hxx
+++ b/src/MEDLoader/MEDFileMeshLL.hxx
@@ -599,6 +599,8 @@ class MEDFileUMeshSplitL1 : public RefCountObject
     );
     static DataArrayIdType *Renumber(const DataArrayIdType *renum, const DataArrayIdType *da);
     static MEDCouplingUMesh *Renumber2(const DataArrayIdType *renum, MEDCouplingUMesh *m, const mcIdType *cellIds);
+    static MCAuto<DataArrayIdType> SerializeNames(const DataArrayAsciiChar *names);
+    static MCAuto<DataArrayAsciiChar> UnserializeNames(const DataArrayIdType *names);
     static MEDFileUMeshSplitL1 *Unserialize(
         const std::string &name,
         DataArrayDouble *coo,
-- 
2.43.0


From 0fc3234aaae50c3b53ff42374bcc321a97a62e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:51 +0000
Subject: [PATCH 083/122] fix: the time unit of unstructured meshes was not
 written in MED files

---
 src/MEDLoader/MEDFileMesh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index f864d69..6b67b83 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -3659,6 +3659,8 @@ MEDFileUMesh::writeMeshLL(med_idt fid) const
     INTERP_KERNEL::AutoPtr<char> desc = MEDLoaderBase::buildEmptyString(MED_COMMENT_SIZE);
     MEDLoaderBase::safeStrCpy(_name.c_str(), MED_NAME_SIZE, maa, _too_long_str);
     MEDLoaderBase::safeStrCpy(_desc_name.c_str(), MED_COMMENT_SIZE, desc, _too_long_str);
+    INTERP_KERNEL::AutoPtr<char> dtunit = MEDLoaderBase::buildEmptyString(MED_LNAME_SIZE);
+    MEDLoaderBase::safeStrCpy(_dt_unit.c_str(), MED_LNAME_SIZE, dtunit, _too_long_str);
     int spaceDim = (int)(coo ? coo->getNumberOfComponents() : 0);
     int mdim(0);
     if (!_ms.empty())
@@ -3685,7 +3687,7 @@ MEDFileUMesh::writeMeshLL(med_idt fid) const
          mdim,
          MED_UNSTRUCTURED_MESH,
          desc,
-         "",
+         dtunit,
          MED_SORT_DTIT,
          MEDFileMeshL2::TraduceAxisTypeRev(getAxisType()),
          comp,
-- 
2.43.0


From f045cb7078145928bada8e558ddabaa3722ebfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:07 +0000
Subject: [PATCH 084/122] fix: node numbers set or read were not inverted, so
 that groups of nodes given by numbers were wrong

---
 src/MEDLoader/MEDFileMesh.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 6b67b83..59f14e5 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -3240,6 +3240,8 @@ MEDFileUMesh::checkConsistency() const
             );
             mcIdType pos;
             mcIdType maxValue = _num_coords->getMaxValue(pos);
+            if (_rev_num_coords.isNull())
+                computeRevNum();
             if (!_rev_num_coords || _rev_num_coords->getNumberOfTuples() != (maxValue + 1))
                 throw INTERP_KERNEL::Exception(
                     "MEDFileUMesh::checkConsistency(): inconsistent internal revert node numbering array!"
@@ -4208,6 +4210,8 @@ MEDFileUMesh::getRevNumberFieldAtLevel(int meshDimRelToMaxExt) const
     {
         if (_num_coords.isNull())
             throw INTERP_KERNEL::Exception("MEDFileUMesh::getRevNumberFieldAtLevel : no coordinates renum specified !");
+        if (_rev_num_coords.isNull())
+            computeRevNum();
         return _rev_num_coords;
     }
     const MEDFileUMeshSplitL1 *l1(getMeshAtLevSafe(meshDimRelToMaxExt));
@@ -6210,7 +6214,6 @@ MEDFileUMesh::unserialize(
     bigArraysI.pop_back();
     _name_coords = MEDFileUMeshSplitL1::UnserializeNames(bigArraysI.back());
     bigArraysI.pop_back();
-    computeRevNum();
 }
 
 /*!
@@ -6604,6 +6607,7 @@ MEDFileUMesh::setRenumFieldArr(int meshDimRelToMaxExt, DataArrayIdType *renumArr
             _coords->getNumberOfTuples(), 1, "MEDFileUMesh::setRenumArr : Problem in size of node numbering arr ! "
         );
         _num_coords.takeRef(renumArr);
+        _rev_num_coords.nullify();
         return;
     }
     if (meshDimRelToMaxExt > 1)
@@ -6729,7 +6733,7 @@ MEDFileUMesh::computeRevNum() const
     if (_num_coords.isNotNull())
     {
         mcIdType pos;
-        mcIdType maxValue = _num_coords->getMaxValue(pos);
+        mcIdType maxValue = _num_coords->empty() ? -1 : _num_coords->getMaxValue(pos);
         _rev_num_coords = _num_coords->invertArrayN2O2O2N(maxValue + 1);
     }
 }
-- 
2.43.0


From 3c2b046d634ce5d054e2bf6f80e472c638b3795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:37 +0000
Subject: [PATCH 085/122] fix: optimizeFamilies dereferenced null when a level
 has no family field

---
 src/MEDLoader/MEDFileMesh.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 59f14e5..84a9080 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -4779,6 +4779,12 @@ MEDFileUMesh::optimizeFamilies()
     for (std::vector<int>::const_iterator it = levs.begin(); it != levs.end(); it++)
     {
         const DataArrayIdType *ffield = getFamilyFieldAtLevel(*it);
+        if (!ffield)
+        {
+            // no family field : all entities are on family 0
+            allFamsIds.insert(0);
+            continue;
+        }
         MCAuto<DataArrayIdType> ids = ffield->getDifferentValues();
         std::set<mcIdType> res;
         std::set_union(ids->begin(), ids->end(), allFamsIds.begin(), allFamsIds.end(), std::inserter(res, res.begin()));
-- 
2.43.0


From ae349f20070071090effd2b1900f1b7eb4ccf8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:57 +0000
Subject: [PATCH 086/122] fix: extractPart of a MEDFileUMesh put the numbers of
 cells and nodes in place of their families

---
 src/MEDLoader/MEDFileMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 84a9080..4a2e8a3 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -5363,7 +5363,7 @@ MEDFileUMesh::extractPart(const std::map<int, MCAuto<DataArrayIdType>> &extractD
         if (num)
         {
             MCAuto<DataArrayIdType> numPart(num->selectByTupleIdSafe((*it).second->begin(), (*it).second->end()));
-            ret->setFamilyFieldArr((*it).first, numPart);
+            ret->setRenumFieldArr((*it).first, numPart);
         }
     }
     std::map<int, MCAuto<DataArrayIdType>>::const_iterator it2(extractDef.find(1));
@@ -5386,7 +5386,7 @@ MEDFileUMesh::extractPart(const std::map<int, MCAuto<DataArrayIdType>> &extractD
         if (num)
         {
             MCAuto<DataArrayIdType> numPart(num->selectByTupleIdSafe((*it2).second->begin(), (*it2).second->end()));
-            ret->setFamilyFieldArr(1, numPart);
+            ret->setRenumFieldArr(1, numPart);
         }
         for (std::map<int, MCAuto<DataArrayIdType>>::const_iterator it3 = extractDef.begin(); it3 != extractDef.end();
              it3++)
-- 
2.43.0


From 9ccb47c9e8d94d662910b6d3dab823bd68404c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:29 +0000
Subject: [PATCH 087/122] fix: extractPart of a MEDFileUMesh lost the families
 and numbers of cells when nodes were extracted

---
 src/MEDLoader/MEDFileMesh.cxx | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 4a2e8a3..37d79a8 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -5354,17 +5354,6 @@ MEDFileUMesh::extractPart(const std::map<int, MCAuto<DataArrayIdType>> &extractD
         MCAuto<MEDCouplingUMesh> m(getMeshAtLevel((*it).first));
         MCAuto<MEDCouplingUMesh> mPart(m->buildPartOfMySelf((*it).second->begin(), (*it).second->end(), true));
         ret->setMeshAtLevel((*it).first, mPart);
-        const DataArrayIdType *fam(getFamilyFieldAtLevel((*it).first)), *num(getNumberFieldAtLevel((*it).first));
-        if (fam)
-        {
-            MCAuto<DataArrayIdType> famPart(fam->selectByTupleIdSafe((*it).second->begin(), (*it).second->end()));
-            ret->setFamilyFieldArr((*it).first, famPart);
-        }
-        if (num)
-        {
-            MCAuto<DataArrayIdType> numPart(num->selectByTupleIdSafe((*it).second->begin(), (*it).second->end()));
-            ret->setRenumFieldArr((*it).first, numPart);
-        }
     }
     std::map<int, MCAuto<DataArrayIdType>>::const_iterator it2(extractDef.find(1));
     if (it2 != extractDef.end())
@@ -5398,6 +5387,23 @@ MEDFileUMesh::extractPart(const std::map<int, MCAuto<DataArrayIdType>> &extractD
             ret->setMeshAtLevel((*it3).first, m);
         }
     }
+    // families and numbers are attached to the final meshes, because setMeshAtLevel discards them
+    for (std::map<int, MCAuto<DataArrayIdType>>::const_iterator it = extractDef.begin(); it != extractDef.end(); it++)
+    {
+        if ((*it).first == 1)
+            continue;
+        const DataArrayIdType *fam(getFamilyFieldAtLevel((*it).first)), *num(getNumberFieldAtLevel((*it).first));
+        if (fam)
+        {
+            MCAuto<DataArrayIdType> famPart(fam->selectByTupleIdSafe((*it).second->begin(), (*it).second->end()));
+            ret->setFamilyFieldArr((*it).first, famPart);
+        }
+        if (num)
+        {
+            MCAuto<DataArrayIdType> numPart(num->selectByTupleIdSafe((*it).second->begin(), (*it).second->end()));
+            ret->setRenumFieldArr((*it).first, numPart);
+        }
+    }
     return ret.retn();
 }
 
-- 
2.43.0


From 2d35628cad9fbe0c085178fbea6e99e368bea9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:29 +0000
Subject: [PATCH 088/122] fix: reduceToCells lost the groups of nodes and
 refused meshes without families

---
 src/MEDLoader/Swig/MEDLoaderFinalize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MEDLoader/Swig/MEDLoaderFinalize.py b/src/MEDLoader/Swig/MEDLoaderFinalize.py
index 9860e92..5257877 100644
--- a/src/MEDLoader/Swig/MEDLoaderFinalize.py
+++ b/src/MEDLoader/Swig/MEDLoaderFinalize.py
@@ -663,7 +663,8 @@ def MEDFileUMeshReduceToCells(self, level, keepCells, removeOrphanNodes=True):
     mmOut = ml.MEDFileUMesh()
     # level 0
     mmOut[0] = refMesh
-    mmOut.setFamilyFieldArr(0, allFamilyFields[0][keepCells])
+    if allFamilyFields[0] is not None:
+        mmOut.setFamilyFieldArr(0, allFamilyFields[0][keepCells])
 
     # subLevels
     for curLev, meshLev, famFieldLev in zip(
@@ -679,10 +680,11 @@ def MEDFileUMeshReduceToCells(self, level, keepCells, removeOrphanNodes=True):
         cellsToKeepLev = b.indicesOfSubPart(cellsToKeepLev)
         cellsToKeepLev.sort()
         mmOut[curLev] = meshLev[cellsToKeepLev]
-        mmOut.setFamilyFieldArr(curLev, famFieldLev[cellsToKeepLev])
+        if famFieldLev is not None:
+            mmOut.setFamilyFieldArr(curLev, famFieldLev[cellsToKeepLev])
 
-    allFamNodes = mmOut.getFamilyFieldAtLevel(1)
-    if allFamNodes:
+    allFamNodes = self.getFamilyFieldAtLevel(1)
+    if allFamNodes is not None:
         mmOut.setFamilyFieldArr(1, allFamNodes[:])
 
     if removeOrphanNodes:
-- 
2.43.0


From 4a51d5ecdebef9d020605b222bb7e547ad34fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:01 +0000
Subject: [PATCH 089/122] fix: optimizeFamilies and eraseGroupsAtLevel left
 groups made of removed families

---
 src/MEDLoader/MEDFileMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 37d79a8..7e17c5a 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -4810,7 +4810,7 @@ MEDFileUMesh::optimizeFamilies()
         if (!tmp.empty())
             (*it).second = tmp;
         else
-            tmp.push_back((*it).first);
+            grpNamesToKill.push_back((*it).first);
     }
     for (std::vector<std::string>::const_iterator it = grpNamesToKill.begin(); it != grpNamesToKill.end(); it++)
         _groups.erase(*it);
-- 
2.43.0


From f32d5c090273a9fed2da6809fd80f9b2874cecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:19 +0000
Subject: [PATCH 090/122] fix: zipFamilies listed twice the families of the
 groups it simplified

---
 src/MEDLoader/MEDFileMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 7e17c5a..5601c6b 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -1037,9 +1037,9 @@ MEDFileMesh::zipFamilies()
             std::for_each(
                 familiesOnCurGrp.begin(),
                 familiesOnCurGrp.end(),
-                [&familiesToKill, &newFamiliesForCurGrp](const std::string &elt)
+                [&familiesToKill, &newFamiliesForCurGrp, &newFamName](const std::string &elt)
                 {
-                    if (familiesToKill.find(elt) == familiesToKill.end())
+                    if (elt != newFamName && familiesToKill.find(elt) == familiesToKill.end())
                     {
                         newFamiliesForCurGrp.push_back(elt);
                     }
-- 
2.43.0


From 201c00de1682f0e217217ff5a546bd6ac2a0cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:57 +0000
Subject: [PATCH 091/122] fix: MEDFileUMesh::Aggregate put in groups the cells
 of no group whose number is a family of another mesh

---
 src/MEDLoader/MEDFileMesh.cxx | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 5601c6b..8673182 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -5837,6 +5837,11 @@ MEDFileUMesh::Aggregate(const std::vector<const MEDFileUMesh *> &meshes)
         for (const auto &it3 : locMap1)
             if (it3.second < min_fam_num)
                 min_fam_num = it3.second;
+        MCAuto<DataArrayIdType> used(msh->computeAllFamilyIdsInUse());
+        if (used.isNotNull())
+            for (const mcIdType *id = used->begin(); id != used->end(); id++)
+                if (*id < min_fam_num)
+                    min_fam_num = *id;
     }
 
     i = 0;
@@ -5914,6 +5919,22 @@ MEDFileUMesh::Aggregate(const std::vector<const MEDFileUMesh *> &meshes)
                 famNumMap_rev[famNum] = famName;
             }
         }
+        // Numbers used in the fields without being those of a family of msh (entities in no group) must not become those of
+        // a family of another mesh.
+        MCAuto<DataArrayIdType> used(msh->computeAllFamilyIdsInUse());
+        if (used.isNotNull())
+            for (const mcIdType *id = used->begin(); id != used->end(); id++)
+            {
+                bool known(*id == 0), elsewhere(false);
+                for (const auto &it3 : locMap1) known = known || it3.second == *id;
+                for (const auto &other : meshes)
+                    for (const auto &it3 : other->getFamilyInfo()) elsewhere = elsewhere || it3.second == *id;
+                if (!known && elsewhere)
+                {
+                    fam_conflict = true;
+                    substituteN[*id] = --min_fam_num;
+                }
+            }
 
         for (const auto &level : levs)
         {
@@ -5935,7 +5956,7 @@ MEDFileUMesh::Aggregate(const std::vector<const MEDFileUMesh *> &meshes)
             m_renum[level].push_back(msh->getNumberFieldAtLevel(level));
 
             // Family field - substitute new family number if needed:
-            if (fam_conflict)
+            if (fam_conflict && msh->getFamilyFieldAtLevel(level))
             {
                 DataArrayIdType *dai(msh->getFamilyFieldAtLevel(level)->deepCopy());  // Need a copy
                 mem_cleanup.insert(MCAuto<DataArrayIdType>(dai));  // Make sure array will decrRef() at end of method
-- 
2.43.0


From d773cfc212e7e1f1f8c472e2db06a4c3ed210b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 092/122] fix: MEDFileUMesh levels set with renumbering did not
 share the coordinates of the mesh

---
 src/MEDLoader/MEDFileMeshLL.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDFileMeshLL.cxx b/src/MEDLoader/MEDFileMeshLL.cxx
index 5762f12..dba2ad4 100644
--- a/src/MEDLoader/MEDFileMeshLL.cxx
+++ b/src/MEDLoader/MEDFileMeshLL.cxx
@@ -1976,7 +1976,7 @@ MEDFileUMeshSplitL1::assignMesh(MEDCouplingUMesh *m, bool newOrOld)
     {
         m->incrRef();
         _m = m;
-        _m_by_types.assignUMesh(dynamic_cast<MEDCouplingUMesh *>(m->deepCopy()));
+        _m_by_types.assignUMesh(m->deepCopyConnectivityOnly());
         MCAuto<DataArrayIdType> da =
             _m_by_types.getUmesh()->getRenumArrForConsecutiveCellTypesSpec(typmai2, typmai2 + MED_N_CELL_FIXED_GEO);
         if (!da->isIota(m->getNumberOfCells()))
-- 
2.43.0


From 845e6965d2984c15162ac453c50069884011e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:06 +0000
Subject: [PATCH 093/122] fix: parts of MED files given by a range with a step
 were loaded as contiguous cells

---
 src/MEDLoader/MEDFilterEntity.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MEDLoader/MEDFilterEntity.hxx b/src/MEDLoader/MEDFilterEntity.hxx
index aa991f7..56c2283 100644
--- a/src/MEDLoader/MEDFilterEntity.hxx
+++ b/src/MEDLoader/MEDFilterEntity.hxx
@@ -110,9 +110,9 @@ MEDFilterEntity::fill(
             profileName,
             /*start*/ ToMedInt(strt + 1),
             /*stride*/ ToMedInt(step),
-            /*count*/ 1,
-            /*blocksize*/ ToMedInt(nbOfEltsToLoad),
-            /*lastblocksize=useless because count=1*/ 0,
+            /*count*/ step == 1 ? 1 : ToMedInt(nbOfEltsToLoad),
+            /*blocksize*/ step == 1 ? ToMedInt(nbOfEltsToLoad) : 1,
+            /*lastblocksize=useless because all blocks have the same size*/ 0,
             _filter.get()
         );
         return;
-- 
2.43.0


From 3a74d2b92d0b0b90070b604ed73dd75fa96c2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 094/122] fix: ReadUMeshDimFromFile did not see polygons and
 polyhedra

---
 src/MEDLoader/MEDLoader.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDLoader.cxx b/src/MEDLoader/MEDLoader.cxx
index 5ed2b3f..cf662d8 100644
--- a/src/MEDLoader/MEDLoader.cxx
+++ b/src/MEDLoader/MEDLoader.cxx
@@ -185,7 +185,7 @@ MEDLoaderNS::readUMeshDimFromFile(
     med_float dt;
     MEDFILESAFECALLERRD0(MEDmeshComputationStepInfo, (fid, nommaa, 1, &numdt, &numit, &dt));
     // endlimitation
-    for (int i = 0; i < MED_N_CELL_GEO_FIXED_CON; i++)
+    for (int i = 0; i < MED_N_CELL_FIXED_GEO; i++)
     {
         med_geometry_type curMedType = typmai[i];
         med_bool changement, transformation;
-- 
2.43.0


From 45352c1a51f798f7bc08824ad330d51b784ca39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 095/122] fix: new families could take the number of entities
 in no group, because the greatest absolute number was wrong

---
 src/MEDLoader/MEDFileMesh.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 8673182..bb23ed7 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -3842,10 +3842,10 @@ MEDFileUMesh::getFamsNonEmptyLevelsExt(const std::vector<std::string> &fams) con
 mcIdType
 MEDFileUMesh::getMaxAbsFamilyIdInArrays() const
 {
-    mcIdType ret = -std::numeric_limits<mcIdType>::max(), tmp = -1;
+    mcIdType ret = -std::numeric_limits<mcIdType>::max();
     if ((const DataArrayIdType *)_fam_coords)
     {
-        mcIdType val = _fam_coords->getMaxValue(tmp);
+        mcIdType val = _fam_coords->getMaxAbsValueInArray();
         ret = std::max(ret, std::abs(val));
     }
     for (std::vector<MCAuto<MEDFileUMeshSplitL1>>::const_iterator it = _ms.begin(); it != _ms.end(); it++)
@@ -3855,7 +3855,7 @@ MEDFileUMesh::getMaxAbsFamilyIdInArrays() const
             const DataArrayIdType *da = (*it)->getFamilyField();
             if (da)
             {
-                mcIdType val = da->getMaxValue(tmp);
+                mcIdType val = da->getMaxAbsValueInArray();
                 ret = std::max(ret, std::abs(val));
             }
         }
@@ -6799,20 +6799,20 @@ MEDFileStructuredMesh::getDirectChildrenWithNull() const
 mcIdType
 MEDFileStructuredMesh::getMaxAbsFamilyIdInArrays() const
 {
-    mcIdType ret = -std::numeric_limits<mcIdType>::max(), tmp = -1;
+    mcIdType ret = -std::numeric_limits<mcIdType>::max();
     if ((const DataArrayIdType *)_fam_nodes)
     {
-        mcIdType val = _fam_nodes->getMaxValue(tmp);
+        mcIdType val = _fam_nodes->getMaxAbsValueInArray();
         ret = std::max(ret, std::abs(val));
     }
     if ((const DataArrayIdType *)_fam_cells)
     {
-        mcIdType val = _fam_cells->getMaxValue(tmp);
+        mcIdType val = _fam_cells->getMaxAbsValueInArray();
         ret = std::max(ret, std::abs(val));
     }
     if ((const DataArrayIdType *)_fam_faces)
     {
-        mcIdType val = _fam_faces->getMaxValue(tmp);
+        mcIdType val = _fam_faces->getMaxAbsValueInArray();
         ret = std::max(ret, std::abs(val));
     }
     return ret;
-- 
2.43.0


From 9a3940b33cbccbcd9afcda74a595f791d6103c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 096/122] fix: a pack id equal to the number of packs was read
 out of bounds by MEDCouplingSkyLineArray

---
 src/MEDCoupling/MEDCouplingSkyLineArray.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
index ad09a81..dfd08d0 100644
--- a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
+++ b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
@@ -269,7 +269,7 @@ MEDCouplingSkyLineArray::checkSuperIndex(const std::string &func) const
 void
 MEDCouplingSkyLineArray::validSuperIndex(const std::string &func, mcIdType superIndex) const
 {
-    if (superIndex < 0 || superIndex >= _super_index->getNbOfElems())
+    if (superIndex < 0 || superIndex >= _super_index->getNbOfElems() - 1)
     {
         std::ostringstream oss;
         oss << "MEDCouplingSkyLineArray::" << func << ": invalid super index!";
@@ -280,7 +280,7 @@ MEDCouplingSkyLineArray::validSuperIndex(const std::string &func, mcIdType super
 void
 MEDCouplingSkyLineArray::validIndex(const std::string &func, mcIdType idx) const
 {
-    if (idx < 0 || idx >= _index->getNbOfElems())
+    if (idx < 0 || idx >= _index->getNbOfElems() - 1)
     {
         std::ostringstream oss;
         oss << "MEDCouplingSkyLineArray::" << func << ": invalid index!";
@@ -293,7 +293,7 @@ MEDCouplingSkyLineArray::validSuperIndexAndIndex(const std::string &func, mcIdTy
 {
     validSuperIndex(func, superIndex);
     mcIdType idx = _super_index->begin()[superIndex] + index;
-    if (idx < 0 || idx >= _index->getNbOfElems())
+    if (index < 0 || idx >= _super_index->begin()[superIndex + 1] || idx >= _index->getNbOfElems() - 1)
     {
         std::ostringstream oss;
         oss << "MEDCouplingSkyLineArray::" << func << ": invalid index!";
@@ -544,7 +544,7 @@ MEDCouplingSkyLineArray::AggregatePacks(const std::vector<const MEDCouplingSkyLi
 void
 MEDCouplingSkyLineArray::getSimplePackSafe(const mcIdType absolutePackId, std::vector<mcIdType> &pack) const
 {
-    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems())
+    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems() - 1)
         throw INTERP_KERNEL::Exception("MEDCouplingSkyLineArray::getPackSafe: invalid index!");
     const mcIdType *iP(_index->begin()), *vP(_values->begin());
     mcIdType sz = iP[absolutePackId + 1] - iP[absolutePackId];
@@ -558,7 +558,7 @@ MEDCouplingSkyLineArray::getSimplePackSafe(const mcIdType absolutePackId, std::v
 const mcIdType *
 MEDCouplingSkyLineArray::getSimplePackSafePtr(const mcIdType absolutePackId, mcIdType &packSize) const
 {
-    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems())
+    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems() - 1)
         throw INTERP_KERNEL::Exception("MEDCouplingSkyLineArray::getPackSafe: invalid index!");
     const mcIdType *iP(_index->begin()), *vP(_values->begin());
     packSize = iP[absolutePackId + 1] - iP[absolutePackId];
@@ -597,6 +597,7 @@ MEDCouplingSkyLineArray::findPackIds(
     {
         out[i] = -1;
         const mcIdType sPackIdx = *it;
+        validSuperIndex("findPackIds", sPackIdx);
         // for each pack
         for (mcIdType idx = siP[sPackIdx], j = 0; idx < siP[sPackIdx + 1]; idx++, j++)
         {
-- 
2.43.0


From 4b069b954278468e61b6cb82af9c890ff390fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 097/122] fix: DataArrayChar.convertToIntArr returned an
 unusable object in Python

---
 src/MEDCoupling_Swig/MEDCouplingMemArray.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingMemArray.i b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
index 20d9517..2cc0648 100644
--- a/src/MEDCoupling_Swig/MEDCouplingMemArray.i
+++ b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
@@ -2427,7 +2427,7 @@ typedef DataArrayInt64 DataArrayIdType;
     void fillWithValue(char val);
     std::string repr() const;
     std::string reprZip() const;
-    DataArrayInt *convertToIntArr() const;
+    DataArrayInt32 *convertToIntArr() const;
     DataArrayChar *renumber(const mcIdType *old2New) const;
     DataArrayChar *renumberR(const mcIdType *new2Old) const;
     DataArrayChar *renumberAndReduce(const mcIdType *old2NewBg, mcIdType newNbOfTuple) const;
-- 
2.43.0


From a2ae42b89655a8358b2593a09f57e39f38738156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 098/122] fix: the deep copy of a DataArrayPartDefinition
 shared its array

---
 src/MEDCoupling/MEDCouplingPartDefinition.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingPartDefinition.cxx b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
index c3f2efd..5959ef1 100644
--- a/src/MEDCoupling/MEDCouplingPartDefinition.cxx
+++ b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
@@ -102,7 +102,8 @@ DataArrayPartDefinition::deepCopy() const
     const DataArrayIdType *arr(_arr);
     if (!arr)
         throw INTERP_KERNEL::Exception("DataArrayPartDefinition::deepCopy : array is null !");
-    return DataArrayPartDefinition::New(const_cast<DataArrayIdType *>(arr));
+    MCAuto<DataArrayIdType> arrCpy(arr->deepCopy());
+    return DataArrayPartDefinition::New(arrCpy);
 }
 
 mcIdType
-- 
2.43.0


From 206bdbc525d8a70f33b3b527e068e10401cc5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 099/122] fix: part definitions given by a slice with a
 negative step could not be composed nor counted

---
 src/MEDCoupling/MEDCouplingPartDefinition.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingPartDefinition.cxx b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
index 5959ef1..d23e269 100644
--- a/src/MEDCoupling/MEDCouplingPartDefinition.cxx
+++ b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
@@ -330,7 +330,7 @@ SlicePartDefinition::toDAI() const
 mcIdType
 SlicePartDefinition::getNumberOfElems() const
 {
-    return DataArray::GetNumberOfItemGivenBES(_start, _stop, _step, "SlicePartDefinition::getNumberOfElems");
+    return DataArray::GetNumberOfItemGivenBESRelative(_start, _stop, _step, "SlicePartDefinition::getNumberOfElems");
 }
 
 PartDefinition *
@@ -361,7 +361,8 @@ SlicePartDefinition::composeWith(const PartDefinition *other) const
     checkConsistencyLight();
     other->checkConsistencyLight();
     MCAuto<DataArrayIdType> arr(other->toDAI());
-    MCAuto<DataArrayIdType> arr1(arr->selectByTupleIdSafeSlice(_start, _stop, _step));
+    MCAuto<DataArrayIdType> ids(toDAI());
+    MCAuto<DataArrayIdType> arr1(arr->selectByTupleIdSafe(ids->begin(), ids->end()));
     return DataArrayPartDefinition::New(arr1);
 }
 
@@ -405,7 +406,7 @@ SlicePartDefinition::getRepr() const
 mcIdType
 SlicePartDefinition::getEffectiveStop() const
 {
-    mcIdType nbElems(DataArray::GetNumberOfItemGivenBES(_start, _stop, _step, "SlicePartDefinition::getEffectiveStop"));
+    mcIdType nbElems(DataArray::GetNumberOfItemGivenBESRelative(_start, _stop, _step, "SlicePartDefinition::getEffectiveStop"));
     return _start + nbElems * _step;
 }
 
-- 
2.43.0


From 51bac82fead1dbaaf8c051ff0ccb0c32adc34788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 100/122] fix: composing a part definition by ids with a slice
 did not check the ids

---
 src/MEDCoupling/MEDCouplingPartDefinition.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingPartDefinition.cxx b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
index d23e269..5c522c1 100644
--- a/src/MEDCoupling/MEDCouplingPartDefinition.cxx
+++ b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
@@ -160,6 +160,7 @@ DataArrayPartDefinition::composeWith(const PartDefinition *other) const
         spd->getSlice(a, b, c);
         if (c == 1)
         {
+            _arr->checkAllIdsInRange(0, spd->getNumberOfElems());
             MCAuto<DataArrayIdType> arr(DataArrayIdType::New());
             arr->alloc(_arr->getNumberOfTuples(), 1);
             std::transform(
-- 
2.43.0


From 6350d3cbc93d0cd7daed567590938efb2d4d3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 101/122] fix: checkGeomConsistency refused every polyhedron

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 2dec7cf..1d575ca 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -341,8 +341,17 @@ MEDCouplingUMesh::checkGeomConsistency(double eps) const
     const mcIdType *ptr(_nodal_connec->begin()), *ptrI(_nodal_connec_index->begin());
     for (auto icell = 0; icell < nbOfCells; ++icell)
     {
-        std::set<mcIdType> s(ptr + ptrI[icell] + 1, ptr + ptrI[icell + 1]);
-        if (ToIdType(s.size()) == ptrI[icell + 1] - ptrI[icell] - 1)
+        // in a polyhedron a node belongs to several faces (separated by -1) : each face has to be considered separately
+        bool isOK(true);
+        const mcIdType *endCell(ptr + ptrI[icell + 1]);
+        for (const mcIdType *work = ptr + ptrI[icell] + 1; work < endCell && isOK;)
+        {
+            const mcIdType *endFace(std::find(work, endCell, -1));
+            std::set<mcIdType> s(work, endFace);
+            isOK = ToIdType(s.size()) == ToIdType(std::distance(work, endFace));
+            work = endFace == endCell ? endFace : endFace + 1;
+        }
+        if (isOK)
             continue;
         std::ostringstream oss;
         oss << "MEDCouplingUMesh::checkGeomConsistency : for cell #" << icell << " presence of multiple same nodeID !";
-- 
2.43.0


From 54f2e3e63fdafff9c0132d99bc1c55a6e54830c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 102/122] fix: explodeMeshIntoMicroEdges always threw on 3D
 meshes

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 1d575ca..723bec9 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -972,7 +972,7 @@ MEDCouplingUMesh::explodeMeshIntoMicroEdges(
                 desc, descIndx, revDesc, revDescIndx, MEDCouplingFastNbrer
             );
         case 3:
-            return buildDescendingConnectivityGen<MicroEdgesGenerator2D>(
+            return buildDescendingConnectivityGen<MicroEdgesGenerator3D>(
                 desc, descIndx, revDesc, revDescIndx, MEDCouplingFastNbrer
             );
         default:
-- 
2.43.0


From e807e3db28ac4fe74d97f0b8d4dcc248b9e66fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 103/122] fix: checkTypeConsistencyAndContig overran its arrays
 when the code does not match the mesh

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 723bec9..7b67fe0 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -7418,6 +7418,17 @@ MEDCouplingUMesh::getDistributionOfTypes() const
     return ret;
 }
 
+static void
+CheckNbOfCellsInCode(int section, mcIdType nbInCode, mcIdType nbExpected)
+{
+    if (nbInCode == nbExpected)
+        return;
+    std::ostringstream oss;
+    oss << "MEDCouplingUMesh::checkTypeConsistencyAndContig : the section " << section << " of code declares " << nbInCode
+        << " cells whereas " << nbExpected << " are expected !";
+    throw INTERP_KERNEL::Exception(oss.str());
+}
+
 /*!
  * This method is used to check that this has contiguous cell type in same order than described in \a code.
  * only for types cell, type node is not managed.
@@ -7453,6 +7464,10 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
         if (std::find(types.begin(), types.end(), (INTERP_KERNEL::NormalizedCellType)code[3 * i]) == types.end())
         {
             types.push_back((INTERP_KERNEL::NormalizedCellType)code[3 * i]);
+            if (code[3 * i + 1] < 0)
+                throw INTERP_KERNEL::Exception(
+                    "MEDCouplingUMesh::checkTypeConsistencyAndContig : presence of a negative number of cells in code !"
+                );
             nb += code[3 * i + 1];
             if (_types.find((INTERP_KERNEL::NormalizedCellType)code[3 * i]) == _types.end())
                 throw INTERP_KERNEL::Exception(
@@ -7469,8 +7484,6 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
     {
         if (!checkConsecutiveCellTypesAndOrder(&types[0], &types[0] + types.size()))
             throw INTERP_KERNEL::Exception("MEDCouplingUMesh::checkTypeConsistencyAndContig : non contiguous type !");
-        if (types.size() == _types.size())
-            return 0;
     }
     MCAuto<DataArrayIdType> ret = DataArrayIdType::New();
     ret->alloc(nb, 1);
@@ -7484,11 +7497,18 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
          it++, kk++)
     {
         i = std::find_if(i, connI + nbOfCells, MEDCouplingImpl::ConnReader2(conn, ToIdType((*it))));
+        if (i == connI + nbOfCells)
+            throw INTERP_KERNEL::Exception(
+                "MEDCouplingUMesh::checkTypeConsistencyAndContig : geo types in code not in the same order than in this !"
+            );
         mcIdType offset = ToIdType(std::distance(connI, i));
         const mcIdType *j = std::find_if(i + 1, connI + nbOfCells, MEDCouplingImpl::ConnReader(conn, ToIdType((*it))));
         mcIdType nbOfCellsOfCurType = ToIdType(std::distance(i, j));
         if (code[3 * kk + 2] == -1)
+        {
+            CheckNbOfCellsInCode(kk, code[3 * kk + 1], nbOfCellsOfCurType);
             for (mcIdType k = 0; k < nbOfCellsOfCurType; k++) *retPtr++ = k + offset;
+        }
         else
         {
             mcIdType idInIdsPerType = code[3 * kk + 2];
@@ -7500,6 +7520,7 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
                     zePfl->checkAllocated();
                     if (zePfl->getNumberOfComponents() == 1)
                     {
+                        CheckNbOfCellsInCode(kk, code[3 * kk + 1], zePfl->getNumberOfTuples());
                         for (const mcIdType *k = zePfl->begin(); k != zePfl->end(); k++, retPtr++)
                         {
                             if (*k >= 0 && *k < nbOfCellsOfCurType)
@@ -7537,6 +7558,8 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
         }
         i = j;
     }
+    if (isNoPflUsed && types.size() == _types.size())
+        return 0;
     return ret.retn();
 }
 
-- 
2.43.0


From 69e67c4b59f5080b49dd68b7488acf911e5c1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 104/122] fix: generateGraph read out of bounds and counted
 nodes several times for polyhedra

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 7b67fe0..83305a6 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -9614,9 +9614,11 @@ MEDCouplingUMesh::generateGraph() const
     for (mcIdType icell = 0; icell < nbCells; icell++)
     {
         std::map<mcIdType, mcIdType> counter;
-        for (mcIdType iconn = index_ptr[icell] + 1; iconn < index_ptr[icell + 1]; iconn++)
+        // a node is counted once even if it belongs to several faces of a polyhedron. -1 is the separator of faces.
+        std::set<mcIdType> nodesOfCell(conn_ptr + index_ptr[icell] + 1, conn_ptr + index_ptr[icell + 1]);
+        nodesOfCell.erase(-1);
+        for (mcIdType inode : nodesOfCell)
         {
-            mcIdType inode = conn_ptr[iconn];
             for (mcIdType iconnr = indexr_ptr[inode]; iconnr < indexr_ptr[inode + 1]; iconnr++)
             {
                 mcIdType icell2 = revConn_ptr[iconnr];
-- 
2.43.0


From 9f1b8a7794a03b54e5003c2b312bd1a6cba08b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 105/122] fix: convexEnvelop2D cut cells having several
 leftmost nodes, missed some non convex cells and could never end

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 63 +++++++++++++++++-----------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 83305a6..6993cf6 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -9983,71 +9983,86 @@ MEDCouplingUMesh::BuildConvexEnvelopOf2DCellJarvis(
             INTERP_KERNEL::CellModel::GetCellModel((INTERP_KERNEL::NormalizedCellType)*nodalConnBg);
         if (cm.getDimension() == 2)
         {
+            constexpr double ANGLE_EPS = 1e-12;
             const mcIdType *node = nodalConnBg + 1;
             mcIdType startNode = *node++;
-            double refX = coords[2 * startNode];
+            double refX = coords[2 * startNode], refY = coords[2 * startNode + 1];
             for (; node != nodalConnEnd; node++)
             {
-                if (coords[2 * (*node)] < refX)
+                // in case of several nodes at the left, the lowest one, because the walk starts upward
+                double x(coords[2 * (*node)]), y(coords[2 * (*node) + 1]);
+                if (x < refX || (x == refX && y < refY))
                 {
                     startNode = *node;
-                    refX = coords[2 * startNode];
+                    refX = x;
+                    refY = y;
                 }
             }
             std::vector<mcIdType> tmpOut;
             tmpOut.reserve(sz);
             tmpOut.push_back(startNode);
-            refX = 1e300;
             double tmp1;
             double tmp2[2];
             double angle0 = -M_PI / 2;
             //
             mcIdType nextNode = -1;
-            mcIdType prevNode = -1;
-            double resRef;
+            double resRef, distRef;
             double angleNext = 0.;
             while (nextNode != startNode)
             {
                 nextNode = -1;
                 resRef = 1e300;
+                distRef = 1e300;
                 for (node = nodalConnBg + 1; node != nodalConnEnd; node++)
                 {
-                    if (*node != tmpOut.back() && *node != prevNode)
+                    // a node already reached can't be reached again, except the first one that closes the envelop
+                    if (*node == startNode ? tmpOut.size() == 1
+                                           : std::find(tmpOut.begin(), tmpOut.end(), *node) != tmpOut.end())
+                        continue;
+                    tmp2[0] = coords[2 * (*node)] - coords[2 * tmpOut.back()];
+                    tmp2[1] = coords[2 * (*node) + 1] - coords[2 * tmpOut.back() + 1];
+                    double dist = sqrt(tmp2[0] * tmp2[0] + tmp2[1] * tmp2[1]);
+                    if (dist == 0.)
+                        continue;
+                    double angleM = INTERP_KERNEL::EdgeArcCircle::GetAbsoluteAngle(tmp2, tmp1);
+                    double res = angle0 - angleM;
+                    while (res < ANGLE_EPS) res += 2. * M_PI;
+                    // among aligned nodes the nearest one comes first
+                    if (res < resRef - ANGLE_EPS || (res < resRef + ANGLE_EPS && dist < distRef))
                     {
-                        tmp2[0] = coords[2 * (*node)] - coords[2 * tmpOut.back()];
-                        tmp2[1] = coords[2 * (*node) + 1] - coords[2 * tmpOut.back() + 1];
-                        double angleM = INTERP_KERNEL::EdgeArcCircle::GetAbsoluteAngle(tmp2, tmp1);
-                        double res;
-                        if (angleM <= angle0)
-                            res = angle0 - angleM;
-                        else
-                            res = angle0 - angleM + 2. * M_PI;
-                        if (res < resRef)
-                        {
-                            nextNode = *node;
-                            resRef = res;
-                            angleNext = angleM;
-                        }
+                        nextNode = *node;
+                        resRef = res;
+                        distRef = dist;
+                        angleNext = angleM;
                     }
                 }
+                if (nextNode == -1)
+                    break;
                 if (nextNode != startNode)
                 {
                     angle0 = angleNext - M_PI;
                     if (angle0 < -M_PI)
                         angle0 += 2 * M_PI;
-                    prevNode = tmpOut.back();
                     tmpOut.push_back(nextNode);
                 }
             }
+            if (tmpOut.size() < 3)
+            {
+                // all the nodes are aligned or merged : no envelop
+                nodalConnecOut->insertAtTheEnd(nodalConnBg, nodalConnEnd);
+                return false;
+            }
             std::vector<mcIdType> tmp3(2 * (sz - 1));
             std::vector<mcIdType>::iterator it = std::copy(nodalConnBg + 1, nodalConnEnd, tmp3.begin());
             std::copy(nodalConnBg + 1, nodalConnEnd, it);
-            if (std::search(tmp3.begin(), tmp3.end(), tmpOut.begin(), tmpOut.end()) != tmp3.end())
+            // the cell already is its envelop only if all its nodes are part of it
+            const bool allNodes(tmpOut.size() == sz - 1);
+            if (allNodes && std::search(tmp3.begin(), tmp3.end(), tmpOut.begin(), tmpOut.end()) != tmp3.end())
             {
                 nodalConnecOut->insertAtTheEnd(nodalConnBg, nodalConnEnd);
                 return false;
             }
-            if (std::search(tmp3.rbegin(), tmp3.rend(), tmpOut.begin(), tmpOut.end()) != tmp3.rend())
+            if (allNodes && std::search(tmp3.rbegin(), tmp3.rend(), tmpOut.begin(), tmpOut.end()) != tmp3.rend())
             {
                 nodalConnecOut->insertAtTheEnd(nodalConnBg, nodalConnEnd);
                 return false;
-- 
2.43.0


From 71fa7058ad93734b48f9fc88ba353a346ec09439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 106/122] fix: computeIsoBarycenterOfNodesPerCell of
 MEDCoupling1DGTUMesh gave wrong points for polygons

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 758747a..e964b7e 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3428,13 +3428,13 @@ MEDCoupling1DGTUMesh::computeIsoBarycenterOfNodesPerCell() const
                             << " presence of nodeId #" << *nodal << " should be in [0," << nbOfNodes << ") !";
                         throw INTERP_KERNEL::Exception(oss.str().c_str());
                     }
-                    std::transform(
-                        ptToFill,
-                        ptToFill + spaceDim,
-                        ptToFill,
-                        std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / double(nodali[1] - nodali[0]))
-                    );
                 }
+                std::transform(
+                    ptToFill,
+                    ptToFill + spaceDim,
+                    ptToFill,
+                    std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / double(nodali[1] - nodali[0]))
+                );
             }
             else
             {
-- 
2.43.0


From bf5529fc42b0036e392be5c642cb3d8c7f527468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 107/122] fix: extrusion with rotation gave wrong or NaN
 coordinates depending on the orientation of the path

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 11ec660..c268afc 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -835,12 +835,18 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation2D(const MEDCouplingUMe
         const double *p0 = i + 1 < nbOfLevsInVec ? begin : third;
         const double *p1 = i + 1 < nbOfLevsInVec ? end : begin;
         const double *p2 = i + 1 < nbOfLevsInVec ? third : end;
-        INTERP_KERNEL::EdgeArcCircle::GetArcOfCirclePassingThru(p0, p1, p2, tmp3, radius, alpha, alpha0);
-        double cosangle = i + 1 < nbOfLevsInVec
-                              ? (p0[0] - tmp3[0]) * (p1[0] - tmp3[0]) + (p0[1] - tmp3[1]) * (p1[1] - tmp3[1])
-                              : (p2[0] - tmp3[0]) * (p1[0] - tmp3[0]) + (p2[1] - tmp3[1]) * (p1[1] - tmp3[1]);
-        double angle = acos(cosangle / (radius * radius));
-        tmp->rotate(end, 0, angle);
+        const double v0[2] = {p1[0] - p0[0], p1[1] - p0[1]}, v1[2] = {p2[0] - p1[0], p2[1] - p1[1]};
+        const double turn(v0[0] * v1[1] - v0[1] * v1[0]), along(v0[0] * v1[0] + v0[1] * v1[1]);
+        // no rotation if the three points are aligned
+        if (std::abs(turn) > 1.e-12 * std::abs(along))
+        {
+            INTERP_KERNEL::EdgeArcCircle::GetArcOfCirclePassingThru(p0, p1, p2, tmp3, radius, alpha, alpha0);
+            double cosangle = i + 1 < nbOfLevsInVec
+                                  ? (p0[0] - tmp3[0]) * (p1[0] - tmp3[0]) + (p0[1] - tmp3[1]) * (p1[1] - tmp3[1])
+                                  : (p2[0] - tmp3[0]) * (p1[0] - tmp3[0]) + (p2[1] - tmp3[1]) * (p1[1] - tmp3[1]);
+            double angle = acos(std::max(-1., std::min(1., cosangle / (radius * radius))));
+            tmp->rotate(end, 0, turn > 0. ? angle : -angle);
+        }
         retPtr = std::copy(tmp2->getConstPointer(), tmp2->getConstPointer() + tmp2->getNbOfElems(), retPtr);
     }
     return ret.retn();
@@ -901,9 +907,14 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation3D(const MEDCouplingUMe
             vecPlane[1] /= norm;
             vecPlane[2] /= norm;
             double norm2 = sqrt(vecPlane[0] * vecPlane[0] + vecPlane[1] * vecPlane[1]);
-            double vec2[2] = {vecPlane[1] / norm2, -vecPlane[0] / norm2};
+            double vec2[2] = {1., 0.};  // any axis if the plane is orthogonal to Z
+            if (norm2 > 0.)
+            {
+                vec2[0] = vecPlane[1] / norm2;
+                vec2[1] = -vecPlane[0] / norm2;
+            }
             double s2 = norm2;
-            double c2 = cos(asin(s2));
+            double c2 = vecPlane[2];
             double m[3][3] = {
                 {vec2[0] * vec2[0] * (1 - c2) + c2, vec2[0] * vec2[1] * (1 - c2), vec2[1] * s2},
                 {vec2[0] * vec2[1] * (1 - c2), vec2[1] * vec2[1] * (1 - c2) + c2, -vec2[0] * s2},
@@ -928,7 +939,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation3D(const MEDCouplingUMe
             double cosangle = i + 1 < nbOfLevsInVec
                                   ? (p0r[0] - tmp3[0]) * (p1r[0] - tmp3[0]) + (p0r[1] - tmp3[1]) * (p1r[1] - tmp3[1])
                                   : (p2r[0] - tmp3[0]) * (p1r[0] - tmp3[0]) + (p2r[1] - tmp3[1]) * (p1r[1] - tmp3[1]);
-            double angle = acos(cosangle / (radius * radius));
+            double angle = acos(std::max(-1., std::min(1., cosangle / (radius * radius))));
             tmp->rotate(end, vecPlane, angle);
         }
         retPtr = std::copy(tmp2->getConstPointer(), tmp2->getConstPointer() + tmp2->getNbOfElems(), retPtr);
-- 
2.43.0


From d55437b94bb2ba2ca8da15f11b33883277a894fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:13 +0000
Subject: [PATCH 108/122] fix: 3D barycentric remapping gave wrong barycenters
 when faces of the two meshes are coplanar or a tetrahedron is cut several
 times

---
 src/INTERP_KERNEL/TransformedTriangle.cxx     | 31 +++++++++++++++++++
 src/INTERP_KERNEL/TransformedTriangle.hxx     |  6 ++++
 .../UnitTetraIntersectionBary.cxx             | 15 +++++++--
 .../UnitTetraIntersectionBary.hxx             |  3 ++
 4 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/INTERP_KERNEL/TransformedTriangle.cxx b/src/INTERP_KERNEL/TransformedTriangle.cxx
index 993a69e..71f6e84 100644
--- a/src/INTERP_KERNEL/TransformedTriangle.cxx
+++ b/src/INTERP_KERNEL/TransformedTriangle.cxx
@@ -212,6 +212,7 @@ TransformedTriangle::calculateIntersectionVolume()
         calculatePolygonBarycenter(A, barycenter);
         sortIntersectionPolygon(A, barycenter);
         volA = calculateVolumeUnderPolygon(A, barycenter);
+        addMomentUnderPolygon(A, barycenter, sign);
         LOG(2, "Volume is " << sign * volA);
     }
 
@@ -230,6 +231,7 @@ TransformedTriangle::calculateIntersectionVolume()
         calculatePolygonBarycenter(B, barycenter);
         sortIntersectionPolygon(B, barycenter);
         volB = calculateVolumeUnderPolygon(B, barycenter);
+        addMomentUnderPolygon(B, barycenter, sign);
         LOG(2, "Volume is " << sign * volB);
     }
 
@@ -747,6 +749,35 @@ TransformedTriangle::calculateVolumeUnderPolygon(IntersectionPolygon poly, const
     return vol;
 }
 
+/**
+ * Adds to the moments of the triangle the integrals of x, y and z over the volume between the given polygon and the
+ * z = 0 plane.
+ *
+ * @param poly        one of the two intersection polygons, already sorted
+ * @param barycenter  array of three doubles with the coordinates of the barycenter of the polygon
+ * @param sign        sign of the volume of the triangle
+ */
+void
+TransformedTriangle::addMomentUnderPolygon(IntersectionPolygon poly, const double *barycenter, double sign)
+{
+    const std::vector<double *> &polygon = (poly == A) ? _polygonA : _polygonB;
+    const std::size_t m = polygon.size();
+    for (std::size_t i = 0; i < m; ++i)
+    {
+        const double *pts[3] = {polygon[i], polygon[(i + 1) % m], barycenter};
+        // twice the area of the projection of the triangle
+        const double area2 = pts[0][0] * (pts[1][1] - pts[2][1]) + pts[1][0] * (pts[2][1] - pts[0][1]) +
+                             pts[2][0] * (pts[0][1] - pts[1][1]);
+        const double sumZ = pts[0][2] + pts[1][2] + pts[2][2];
+        for (int j = 0; j < 3; ++j)
+        {
+            double integral = (pts[0][j] + pts[1][j] + pts[2][j]) * sumZ;
+            for (int k = 0; k < 3; ++k) integral += pts[k][j] * pts[k][2];
+            _moment[j] += sign * area2 * integral / (j == 2 ? 48. : 24.);
+        }
+    }
+}
+
 ////////////////////////////////////////////////////////////////////////////////////
 // Detection of (very) degenerate cases                                /////////////
 ////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/INTERP_KERNEL/TransformedTriangle.hxx b/src/INTERP_KERNEL/TransformedTriangle.hxx
index b9753de..3ea2696 100644
--- a/src/INTERP_KERNEL/TransformedTriangle.hxx
+++ b/src/INTERP_KERNEL/TransformedTriangle.hxx
@@ -195,6 +195,7 @@ class INTERPKERNEL_EXPORT TransformedTriangle
     const double *getCorner(TriCorner corner) const { return _coords + 5 * corner; }
     const std::vector<double *> &getPolygonA() const { return _polygonA; }
     double getVolume() const { return _volume; }
+    const double *getMoment() const { return _moment; }
 
    protected:
     TransformedTriangle() {}
@@ -207,6 +208,8 @@ class INTERPKERNEL_EXPORT TransformedTriangle
     void sortIntersectionPolygon(const IntersectionPolygon poly, const double *barycenter);
     double calculateVolumeUnderPolygon(IntersectionPolygon poly, const double *barycenter);
 
+    void addMomentUnderPolygon(IntersectionPolygon poly, const double *barycenter, double sign);
+
     // ----------------------------------------------------------------------------------
     //  High-level methods called directly by calculateIntersectionSurface()
     // ----------------------------------------------------------------------------------
@@ -326,6 +329,9 @@ class INTERPKERNEL_EXPORT TransformedTriangle
     /// calculated volume for use of UnitTetraIntersectionBary
     double _volume;
 
+    /// calculated first moments (integrals of x, y and z) of the volume, for use of UnitTetraIntersectionBary
+    double _moment[3] = {0., 0., 0.};
+
     /**
      * Calls TransformedTriangle::testTriangleSurroundsEdge for edges OX to ZX and stores the result in
      * member variable array_triangleSurroundsEdgeCache.
diff --git a/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx b/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx
index d605fd5..dabfb76 100644
--- a/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx
+++ b/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx
@@ -57,6 +57,7 @@ UnitTetraIntersectionBary::UnitTetraIntersectionBary(bool isTetraInversed)
     : TransformedTriangle(), _int_volume(0), _isTetraInversed(isTetraInversed)
 {
     // init();
+    _int_moment[0] = _int_moment[1] = _int_moment[2] = 0.;
 }
 //================================================================================
 /*!
@@ -68,6 +69,7 @@ void
 UnitTetraIntersectionBary::init(bool isTetraInversed)
 {
     _int_volume = 0;
+    _int_moment[0] = _int_moment[1] = _int_moment[2] = 0.;
     _isTetraInversed = isTetraInversed;
     _faces.clear();
     _polyNormals.clear();
@@ -84,6 +86,7 @@ void
 UnitTetraIntersectionBary::addSide(const TransformedTriangle &triangle)
 {
     _int_volume += triangle.getVolume();
+    for (int i = 0; i < 3; ++i) _int_moment[i] += triangle.getMoment()[i];
 
     double triNormal[3], polyNormal[3];
     crossprod<3>(triangle.getCorner(P), triangle.getCorner(Q), triangle.getCorner(R), triNormal);
@@ -232,6 +235,7 @@ UnitTetraIntersectionBary::getBary(double *baryCenter)
     // - Add up all barycenter positions weighting them with the volumes.
 
     baryCenter[0] = baryCenter[1] = baryCenter[2] = 0.;
+    double sumOfVol = 0.;
 
     std::list<std::vector<double *> >::iterator f = _faces.begin(), fEnd = _faces.end();
     double *PP = f->at(0);
@@ -274,16 +278,21 @@ UnitTetraIntersectionBary::getBary(double *baryCenter)
             vol += std::fabs(calculateVolumeForTetra(p1, p2, bary, PP));
         }
 
+        sumOfVol += vol;
+
         // put bary on the line ( barycenter of polygon -> PP ) and multiply by volume
         baryCenter[0] += (bary[0] * 0.75 + PP[0] * 0.25) * vol;
         baryCenter[1] += (bary[1] * 0.75 + PP[1] * 0.25) * vol;
         baryCenter[2] += (bary[2] * 0.75 + PP[2] * 0.25) * vol;
     }
     if (_int_volume < 0.)
+    {
         _int_volume = -_int_volume;
-    baryCenter[0] /= _int_volume;
-    baryCenter[1] /= _int_volume;
-    baryCenter[2] /= _int_volume;
+        for (int i = 0; i < 3; ++i) _int_moment[i] = -_int_moment[i];
+    }
+    // when the faces found do not bound the intersection (faces lying on sides of the tetra...) its moments are used
+    const double *sum = std::fabs(sumOfVol - _int_volume) > 1e-6 * _int_volume ? _int_moment : baryCenter;
+    for (int i = 0; i < 3; ++i) baryCenter[i] = sum[i] / _int_volume;
 
 #ifdef DMP_UNITTETRAINTERSECTIONBARY
     std::cout.precision(5);
diff --git a/src/INTERP_KERNEL/UnitTetraIntersectionBary.hxx b/src/INTERP_KERNEL/UnitTetraIntersectionBary.hxx
index 63d7e8e..39a7411 100644
--- a/src/INTERP_KERNEL/UnitTetraIntersectionBary.hxx
+++ b/src/INTERP_KERNEL/UnitTetraIntersectionBary.hxx
@@ -68,6 +68,9 @@ class UnitTetraIntersectionBary : protected TransformedTriangle
     /// volume of intersection
     double _int_volume;
 
+    /// first moments of the intersection
+    double _int_moment[3];
+
     /// faces of intersection polyhedron
     std::list<std::vector<double *> > _faces;
     std::vector<std::vector<double> > _polyNormals;
-- 
2.43.0


From d19a3e3f0f082986a8fce60f1afa28dbd5362a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:14 +0000
Subject: [PATCH 109/122] fix: conversions of fields between value types lost
 the time unit

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 1 +
 src/MEDCoupling/MEDCouplingFieldFloat.cxx  | 1 +
 src/MEDCoupling/MEDCouplingFieldInt32.cxx  | 1 +
 src/MEDCoupling/MEDCouplingFieldInt64.cxx  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index db58707..6f086eb 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -518,6 +518,7 @@ ConvertToUField(const MEDCouplingFieldDouble *self)
     double t0(self->getTime(t1, t2));
     MCAuto<typename Traits<U>::FieldType> ret(Traits<U>::FieldType::New(*tmp, self->getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(self->getTimeUnit());
     if (self->getArray())
     {
         MCAuto<typename Traits<U>::ArrayType> arr(self->getArray()->convertToOtherTypeOfArr<U>());
diff --git a/src/MEDCoupling/MEDCouplingFieldFloat.cxx b/src/MEDCoupling/MEDCouplingFieldFloat.cxx
index a8e7376..f58b841 100644
--- a/src/MEDCoupling/MEDCouplingFieldFloat.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldFloat.cxx
@@ -90,6 +90,7 @@ ConvertToUField(const MEDCouplingFieldFloat *self)
     double t0(self->getTime(t1, t2));
     MCAuto<typename Traits<U>::FieldType> ret(Traits<U>::FieldType::New(*tmp, self->getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(self->getTimeUnit());
     if (self->getArray())
     {
         MCAuto<typename Traits<U>::ArrayType> arr(self->getArray()->convertToOtherTypeOfArr<U>());
diff --git a/src/MEDCoupling/MEDCouplingFieldInt32.cxx b/src/MEDCoupling/MEDCouplingFieldInt32.cxx
index 1d959a5..de4e5ba 100644
--- a/src/MEDCoupling/MEDCouplingFieldInt32.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldInt32.cxx
@@ -90,6 +90,7 @@ ConvertToUField(const MEDCouplingFieldInt32 *self)
     double t0(self->getTime(t1, t2));
     MCAuto<typename Traits<U>::FieldType> ret(Traits<U>::FieldType::New(*tmp, self->getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(self->getTimeUnit());
     if (self->getArray())
     {
         MCAuto<typename Traits<U>::ArrayType> arr(self->getArray()->convertToOtherTypeOfArr<U>());
diff --git a/src/MEDCoupling/MEDCouplingFieldInt64.cxx b/src/MEDCoupling/MEDCouplingFieldInt64.cxx
index 494b4da..d113aa7 100644
--- a/src/MEDCoupling/MEDCouplingFieldInt64.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldInt64.cxx
@@ -87,6 +87,7 @@ MEDCouplingFieldInt64::convertToDblField() const
     double t0(getTime(t1, t2));
     MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(*tmp, getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(getTimeUnit());
     if (getArray())
     {
         MCAuto<DataArrayDouble> arr(getArray()->convertToDblArr());
-- 
2.43.0


From 34d65ba447dbd13600d564ae9e1f14afb64de576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:23 +0000
Subject: [PATCH 110/122] fix: extrusion of quadratic meshes gave wrong
 coordinates, cells out of the nodes and SEG3 with end and middle exchanged

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index c268afc..43dcd07 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -751,6 +751,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslation(const MEDCouplingUMesh *mesh1D,
     c.reserve(6);
     for (mcIdType i = 0; i < nbOf1DCells; i++)
     {
+        const double *curLev = retPtr + spaceDim * oldNbOfNodes * (isQuad ? 2 * i : i);
         v.resize(0);
         mesh1D->getNodeIdsOfCell(i, v);
         c.resize(0);
@@ -758,9 +759,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslation(const MEDCouplingUMesh *mesh1D,
         mesh1D->getCoordinatesOfNode(v[0], c);
         std::transform(c.begin(), c.begin() + spaceDim, c.begin() + spaceDim, vec, std::minus<double>());
         for (mcIdType j = 0; j < oldNbOfNodes; j++)
-            work = std::transform(
-                vec, vec + spaceDim, retPtr + spaceDim * (i * oldNbOfNodes + j), work, std::plus<double>()
-            );
+            work = std::transform(vec, vec + spaceDim, curLev + spaceDim * j, work, std::plus<double>());
         if (isQuad)
         {
             c.resize(0);
@@ -768,9 +767,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslation(const MEDCouplingUMesh *mesh1D,
             mesh1D->getCoordinatesOfNode(v[0], c);
             std::transform(c.begin(), c.begin() + spaceDim, c.begin() + spaceDim, vec, std::minus<double>());
             for (mcIdType j = 0; j < oldNbOfNodes; j++)
-                work = std::transform(
-                    vec, vec + spaceDim, retPtr + spaceDim * (i * oldNbOfNodes + j), work, std::plus<double>()
-                );
+                work = std::transform(vec, vec + spaceDim, curLev + spaceDim * j, work, std::plus<double>());
         }
     }
     ret->copyStringInfoFrom(*getCoords());
@@ -956,7 +953,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation3D(const MEDCouplingUMe
 MEDCouplingUMesh *
 MEDCouplingUMesh::buildExtrudedMeshFromThisLowLev(mcIdType nbOfNodesOf1Lev, bool isQuad) const
 {
-    mcIdType nbOf1DCells(getNumberOfNodes() / nbOfNodesOf1Lev - 1);
+    mcIdType nbOf1DCells((getNumberOfNodes() / nbOfNodesOf1Lev - 1) / (isQuad ? 2 : 1));
     mcIdType nbOf2DCells = getNumberOfCells();
     mcIdType nbOf3DCells(nbOf2DCells * nbOf1DCells);
     MEDCouplingUMesh *ret(MEDCouplingUMesh::New("Extruded", getMeshDimension() + 1));
@@ -2026,12 +2023,12 @@ MEDCouplingUMesh::AppendExtrudedCell(
         {
             mcIdType conn[8] = {
                 connBg[1],
-                connBg[3],
-                connBg[3] + deltaz,
-                connBg[1] + deltaz,
                 connBg[2],
-                connBg[3] + nbOfNodesPerLev,
                 connBg[2] + deltaz,
+                connBg[1] + deltaz,
+                connBg[3],
+                connBg[2] + nbOfNodesPerLev,
+                connBg[3] + deltaz,
                 connBg[1] + nbOfNodesPerLev
             };
             ret.insert(ret.end(), conn, conn + 8);
-- 
2.43.0


From 4d03211cd64d3aa21e340ec5d93fd02f52cb778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:15 +0000
Subject: [PATCH 111/122] fix: convertToQuadraticBasedOnSeg3 crashed when the
 given SEG3 cells are in the order of the edges

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 6993cf6..05b330d 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -5936,7 +5936,8 @@ MEDCouplingUMesh::convertToQuadraticBasedOnSeg3(const MEDCoupling1SGTUMesh *seg3
         o2n = cellCorTmp;
         nodeCorTmpSafe = nodeCorTmp;
     }
-    d->transformWithIndArr(o2n->begin(), o2n->end());
+    if (o2n.isNotNull())  // null means identity
+        d->transformWithIndArr(o2n->begin(), o2n->end());
     mcIdType offset(0);
     std::vector<MCAuto<MEDCouplingUMesh> > types;
     {
-- 
2.43.0


From 8ad133b26f9ea10fae7cb32a73f742b471e7c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:34 +0000
Subject: [PATCH 112/122] fix: shape recognition gathered nodes whatever their
 curvature and got wrong principal directions

The curvatures made dimensionless were assigned to local variables hiding
those stored, which stayed null: every cylinder or sphere node matched any area.
The angle of the principal directions was taken with an arc sine, wrong as soon as
the first direction is more than 45 degrees away from the principal one.
---
 src/ShapeRecogn/NodesBuilder.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ShapeRecogn/NodesBuilder.cxx b/src/ShapeRecogn/NodesBuilder.cxx
index e45bd78..5ae5c5c 100644
--- a/src/ShapeRecogn/NodesBuilder.cxx
+++ b/src/ShapeRecogn/NodesBuilder.cxx
@@ -127,7 +127,7 @@ NodesBuilder::computeCurvatures(mcIdType nodeId, double tol)
         k1 = h + sqrt(fabs(pow(h, 2) - kg));
         k2 = h - sqrt(fabs(pow(h, 2) - kg));
         if (fabs(k1 - k2) >= tol)
-            theta0 = 0.5 * asin(b / (k1 - k2));
+            theta0 = 0.5 * atan2(b, a - c);
         std::array<double, 3> direction1{0.0, 0.0, 0.0};
         std::array<double, 3> direction2{0.0, 0.0, 0.0};
         for (size_t i = 0; i < 3; ++i)
@@ -136,8 +136,8 @@ NodesBuilder::computeCurvatures(mcIdType nodeId, double tol)
             direction2[i] = -sin(theta0) * e1[i] + cos(theta0) * e2[i];
         }
         double averageDistance = computeAverageDistance(nodeId, neighborIds);
-        double adimK1 = k1 * averageDistance;
-        double adimK2 = k2 * averageDistance;
+        adimK1 = k1 * averageDistance;
+        adimK2 = k2 * averageDistance;
         double adimKdiff0, adimKis0;
         if (fabs(k1) > fabs(k2))
         {
-- 
2.43.0


From 55e4a07a204c76b22acd93dfa8056df039352a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:34 +0000
Subject: [PATCH 113/122] fix: the accessors of the areas of shape recognition
 read out of memory for an unknown area

---
 src/ShapeRecogn/Areas.cxx | 23 +++++++++++++++++++++++
 src/ShapeRecogn/Areas.hxx |  1 +
 2 files changed, 24 insertions(+)

diff --git a/src/ShapeRecogn/Areas.cxx b/src/ShapeRecogn/Areas.cxx
index 039cd47..3fde9de 100644
--- a/src/ShapeRecogn/Areas.cxx
+++ b/src/ShapeRecogn/Areas.cxx
@@ -97,6 +97,7 @@ Areas::getAreaId(mcIdType nodeId) const
 bool
 Areas::isEmpty(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].nodeIds.empty();
 }
 
@@ -109,6 +110,7 @@ Areas::getNumberOfAreas() const
 size_t
 Areas::getNumberOfNodes(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].nodeIds.size();
 }
 
@@ -126,6 +128,7 @@ Areas::isNodeCompatible(mcIdType areaId, mcIdType nodeId) const
 PrimitiveType
 Areas::getPrimitiveType(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     const Area &area = areas[areaId];
     if (area.primitive != PrimitiveType::Unknown)
         return area.primitive;
@@ -150,24 +153,28 @@ Areas::getPrimitiveTypeInt(mcIdType areaId) const
 const std::vector<mcIdType> &
 Areas::getNodeIds(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].nodeIds;
 }
 
 double
 Areas::getAdimK1(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].adimK1;
 }
 
 double
 Areas::getAdimK2(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].adimK2;
 }
 
 double
 Areas::getAdimKdiff0(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].adimKdiff0;
 }
 
@@ -200,6 +207,7 @@ Areas::computeProperties(mcIdType areaId)
 double
 Areas::getMinorRadius(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     const Area &area = areas[areaId];
     return area.minorRadius;
 }
@@ -207,6 +215,7 @@ Areas::getMinorRadius(mcIdType areaId) const
 double
 Areas::getRadius(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     const Area &area = areas[areaId];
     return area.radius;
 }
@@ -214,18 +223,21 @@ Areas::getRadius(mcIdType areaId) const
 double
 Areas::getAngle(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].angle;
 }
 
 const std::array<double, 3> &
 Areas::getNormal(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].normal;
 }
 
 const std::array<double, 3> &
 Areas::getCenter(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     const Area &area = areas[areaId];
     return area.center;
 }
@@ -233,24 +245,28 @@ Areas::getCenter(mcIdType areaId) const
 const std::array<double, 3> &
 Areas::getAxis(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].axis;
 }
 
 const std::array<double, 3> &
 Areas::getAxisPoint(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].axisPoint;
 }
 
 const std::array<double, 3> &
 Areas::getApex(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     return areas[areaId].apex;
 }
 
 std::array<double, 3>
 Areas::getAffinePoint(mcIdType areaId) const
 {
+    checkAreaId(areaId);
     const Area &area = areas[areaId];
     if (area.nodeIds.empty())
         return {0.0, 0.0, 0.0};
@@ -280,6 +296,13 @@ Areas::cleanArea(mcIdType areaId, mcIdType newAreaId = -1)
     area.nodeIds.clear();
 }
 
+void
+Areas::checkAreaId(mcIdType areaId) const
+{
+    if (areaId < 0 || areaId >= (mcIdType)areas.size())
+        throw INTERP_KERNEL::Exception("Areas : the area id is out of range !");
+}
+
 void
 Areas::removeNode(mcIdType nodeId)
 {
diff --git a/src/ShapeRecogn/Areas.hxx b/src/ShapeRecogn/Areas.hxx
index b118a67..519bfc1 100644
--- a/src/ShapeRecogn/Areas.hxx
+++ b/src/ShapeRecogn/Areas.hxx
@@ -89,6 +89,7 @@ class SHAPE_RECOGNITION_EXPORT Areas
     std::array<double, 3> getAffinePoint(mcIdType areaId) const;
 
    private:
+    void checkAreaId(mcIdType areaId) const;
     void cleanArea(mcIdType areaId, mcIdType newAreaId);
     void removeNode(mcIdType nodeId);
 
-- 
2.43.0


From 5401dc45462bf532b06c7988e4efff3fd7da83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:45 +0000
Subject: [PATCH 114/122] fix: shape recognition of a null mesh, a mesh without
 cells or of a plane mesh in 2-D space read out of memory

---
 src/MEDCoupling/MEDCouplingUMesh.cxx       | 1 +
 src/ShapeRecogn/ShapeRecognMeshBuilder.cxx | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 05b330d..a4d6d45 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -3907,6 +3907,7 @@ MEDCouplingUMesh::giveCellsWithType(INTERP_KERNEL::NormalizedCellType type) cons
 mcIdType
 MEDCouplingUMesh::getNumberOfCellsWithType(INTERP_KERNEL::NormalizedCellType type) const
 {
+    checkConnectivityFullyDefined();
     const mcIdType *ptI(_nodal_connec_index->begin()), *pt(_nodal_connec->begin());
     mcIdType nbOfCells(getNumberOfCells()), ret(0);
     for (mcIdType i = 0; i < nbOfCells; i++)
diff --git a/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx b/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx
index 2c09e09..fd79ed2 100644
--- a/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx
+++ b/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx
@@ -45,7 +45,11 @@ ShapeRecognMeshBuilder::ShapeRecognMeshBuilder(MEDCouplingUMesh *mesh)
 void
 ShapeRecognMeshBuilder::assign(MCAuto<MEDCouplingUMesh> mesh)
 {
+    if (mesh.isNull())
+        throw INTERP_KERNEL::Exception("Expect a non null mesh");
     this->mesh = mesh;
+    if (mesh->getSpaceDimension() != 3)
+        throw INTERP_KERNEL::Exception("Expect a mesh with a space dimension equal to 3");
     if (mesh->getMeshDimension() != 2)
         throw INTERP_KERNEL::Exception("Expect a mesh with a dimension equal to 2");
     if (mesh->getNumberOfCellsWithType(INTERP_KERNEL::NORM_TRI3) != mesh->getNumberOfCells())
-- 
2.43.0


From fa517fb7deb08d2d56bfb67eb65c917e86cc6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:45 +0000
Subject: [PATCH 115/122] fix: numpy released with free the memory that shape
 recognition allocated with new[]

---
 src/ShapeRecogn/ShapeRecognMeshBuilder.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx b/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx
index fd79ed2..188abb8 100644
--- a/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx
+++ b/src/ShapeRecogn/ShapeRecognMeshBuilder.cxx
@@ -148,9 +148,12 @@ buildField(const std::string &name, size_t nbOfCompo, T *values, const MEDCoupli
 {
     using ZeArray = typename Traits<T>::ArrayType;
     mcIdType nbNodes = mesh->getNumberOfNodes();
-    ZeArray *data = ZeArray::New();
+    // toNumPyArray gives the memory of the array to numpy which releases it with free: no memory coming from new[] here
+    std::unique_ptr<T[]> valuesSafe(values);
+    MCAuto<ZeArray> data(ZeArray::New());
     data->setName(name);
-    data->useArray(values, true, MEDCoupling::DeallocType::CPP_DEALLOC, nbNodes, nbOfCompo);
+    data->alloc(nbNodes, nbOfCompo);
+    std::copy(values, values + nbNodes * nbOfCompo, data->getPointer());
     return buildField<T>(name, data, mesh);
 }
 
-- 
2.43.0


From c2b13924a4450edd81d463e2d6d78d505120b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:33 +0000
Subject: [PATCH 116/122] fix: recognition of shapes crashed when an area of
 the mesh lost all its nodes to another one

---
 src/ShapeRecogn/AreasBuilder.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ShapeRecogn/AreasBuilder.cxx b/src/ShapeRecogn/AreasBuilder.cxx
index 9db3ba3..e904d9d 100644
--- a/src/ShapeRecogn/AreasBuilder.cxx
+++ b/src/ShapeRecogn/AreasBuilder.cxx
@@ -142,7 +142,8 @@ AreasBuilder::expandAreasByType(PrimitiveType primitive)
     nodesToExplore.reserve(nodes->getNbNodes());
     for (mcIdType areaId = 0; areaId < (mcIdType)areas->getNumberOfAreas(); ++areaId)
     {
-        if (areas->getPrimitiveType(areaId) == primitive)
+        // An area can have lost all its nodes in favour of the ones expanded before
+        if (areas->getPrimitiveType(areaId) == primitive && !areas->isEmpty(areaId))
         {
             std::vector<bool> exploredNodeIds(nodes->getNbNodes(), false);
             areas->computeProperties(areaId);
-- 
2.43.0


From ce59354d20dd193181f6b02b60534ef6679124b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:48 +0000
Subject: [PATCH 117/122] fix: colinearizeEdges compared the wrong segments and
 read out of its arrays

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index a4d6d45..82cf1e7 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -1776,10 +1776,11 @@ MEDCouplingUMesh::colinearizeEdges(double eps)
                     P_Sip[i] +
                     j;  // offset to get ID of the j-th seg (around the i-th point) in the point->seg correspondance
                 mcIdType pt_id =
-                    P_Sp[off1] + k;  // ID of the k-th point of the j-th seg in the point->seg correspondance
-                mcIdType pt_id2 = S_Pp[S_Pip[pt_id]];  // ID of the point in the point mesh
-                p[j][k] = m_pc[m_pi[pt_id2] + 1];      // Absolute ID, as read from the connectvity (+1 to skip type:
-                                                       // NORM_POINT1) Just for fun, as initially written by Antoine :-)
+                    S_Pip[P_Sp[off1]] + k;    // offset to get ID of the k-th point of the j-th seg in the seg->point
+                                              // correspondance
+                mcIdType pt_id2 = S_Pp[pt_id];  // ID of the point in the point mesh
+                p[j][k] = m_pc[m_pi[pt_id2] + 1];  // Absolute ID, as read from the connectvity (+1 to skip type:
+                                                   // NORM_POINT1) Just for fun, as initially written by Antoine :-)
                 // p[j][k] = m_pc[m_pi[S_P->getIJ(S_Pi->getIJ(P_S->getIJ(P_Si->getIJ(i, 0) + j, 0), 0) + k, 0)] + 1];
             }
         // Geometric test on scalar product
-- 
2.43.0


From 324e5886b4ab6b38a9ce109b41610f62d1d38ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:48 +0000
Subject: [PATCH 118/122] fix: emulateMEDMEMBDC took lists of cells per face
 for the nodal connectivity of a mesh

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 82cf1e7..bdf2bf7 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -7710,11 +7710,11 @@ MEDCouplingUMesh::emulateMEDMEMBDC(
     MCAuto<MEDCouplingUMesh> ret1 = buildDescendingConnectivity(desc, descIndx, tmp0, tmp1);
     MCAuto<DataArrayIdType> ret0 = ret1->sortCellsInMEDFileFrmt();
     desc->transformWithIndArr(ret0->begin(), ret0->begin() + ret0->getNbOfElems());
-    MCAuto<MEDCouplingUMesh> tmp = MEDCouplingUMesh::New();
-    tmp->setConnectivity(tmp0, tmp1);
-    tmp->renumberCells(ret0->begin(), false);
-    revDesc = tmp->getNodalConnectivity();
-    revDescIndx = tmp->getNodalConnectivityIndex();
+    // lists of cells per face : they are not the nodal connectivity of a mesh
+    MCAuto<DataArrayIdType> n2o = ret0->invertArrayO2N2N2O(ret1->getNumberOfCells());
+    DataArrayIdType *revDescRaw = 0, *revDescIndxRaw = 0;
+    DataArrayIdType::ExtractFromIndexedArrays(n2o->begin(), n2o->end(), tmp0, tmp1, revDescRaw, revDescIndxRaw);
+    MCAuto<DataArrayIdType> revDescAuto(revDescRaw), revDescIndxAuto(revDescIndxRaw);
     DataArrayIdType *ret = 0;
     if (!ret1->areCellsIncludedIn(nM1LevMesh, 2, ret))
     {
@@ -7729,8 +7729,8 @@ MEDCouplingUMesh::emulateMEDMEMBDC(
     }
     nM1LevMeshIds = ret;
     //
-    revDesc->incrRef();
-    revDescIndx->incrRef();
+    revDesc = revDescAuto.retn();
+    revDescIndx = revDescIndxAuto.retn();
     ret1->incrRef();
     ret0->incrRef();
     meshnM1Old2New = ret0;
-- 
2.43.0


From 2a2556fa875b4c63aa332de379120ddd7e9dc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:03 +0000
Subject: [PATCH 119/122] fix: BBTreeClosest kept the candidates of the
 previous search

---
 src/INTERP_KERNEL/BBTreeClosest.txx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INTERP_KERNEL/BBTreeClosest.txx b/src/INTERP_KERNEL/BBTreeClosest.txx
index 673021f..aa1c4d9 100644
--- a/src/INTERP_KERNEL/BBTreeClosest.txx
+++ b/src/INTERP_KERNEL/BBTreeClosest.txx
@@ -388,6 +388,7 @@ class BBTreeClosest : public BBTreeBaseBase<dim, ConnType, 15, 12, BBTreeClosest
         if (this->terminal())
         {
             double val;
+            _candidates.clear();  // filter does not go down to all the terminals : some may remain from another point
             INTERP_KERNEL::HighLevelDistInternal<dim>(pt, this->_bbox.data(), _min, val);
             return val;
         }
-- 
2.43.0


From 82afe49fd89a02f3f8b30be81b719bc9a1cdbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:03 +0000
Subject: [PATCH 120/122] fix: tessellation of curves lost cells and indices of
 cells other than SEG2

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 43dcd07..aa501fb 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -441,12 +441,14 @@ MEDCouplingUMesh::tessellate2DCurveInternal(double eps)
     mcIdType tmp1[3];
     INTERP_KERNEL::Node *tmp2[3];
     std::set<INTERP_KERNEL::NormalizedCellType> types;
+    bool nothingToDo(true);
     for (mcIdType i = 0; i < nbCells; i++, newConnIPtr++)
     {
         const INTERP_KERNEL::CellModel &cm =
             INTERP_KERNEL::CellModel::GetCellModel((INTERP_KERNEL::NormalizedCellType)conn[connI[i]]);
         if (cm.isQuadratic())
         {  // assert(connI[i+1]-connI[i]-1==3)
+            nothingToDo = false;
             tmp1[0] = conn[connI[i] + 1 + 0];
             tmp1[1] = conn[connI[i] + 1 + 1];
             tmp1[2] = conn[connI[i] + 1 + 2];
@@ -473,12 +475,10 @@ MEDCouplingUMesh::tessellate2DCurveInternal(double eps)
         {
             types.insert((INTERP_KERNEL::NormalizedCellType)conn[connI[i]]);
             newConn.insert(newConn.end(), conn + connI[i], conn + connI[i + 1]);
-            newConnIPtr[1] = newConnIPtr[0] + 3;
+            newConnIPtr[1] = ToIdType(newConn.size());
         }
     }
-    if (addCoo.empty() &&
-        ToIdType(newConn.size()) ==
-            _nodal_connec->getNumberOfTuples())  // nothing happens during tessellation : no update needed
+    if (nothingToDo)  // nothing happens during tessellation : no update needed
         return;
     _types = types;
     DataArrayIdType::SetArrayIn(newConnI, _nodal_connec_index);
-- 
2.43.0


From 70a523ff74b0d32caa8cc14f21c44769a8c18bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:14 +0000
Subject: [PATCH 121/122] fix: objects given to fields, sky-line arrays and VTK
 arrays again were leaked

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx     | 12 +++---------
 src/MEDCoupling/MEDCouplingFieldT.txx       |  3 +--
 src/MEDCoupling/MEDCouplingSkyLineArray.cxx | 15 ++++++---------
 3 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index e964b7e..ca3ee8d 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -2007,9 +2007,7 @@ MEDCoupling1SGTUMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, Dat
 void
 MEDCoupling1SGTUMesh::setNodalConnectivity(DataArrayIdType *nodalConn)
 {
-    if (nodalConn)
-        nodalConn->incrRef();
-    _conn = nodalConn;
+    _conn.takeRef(nodalConn);
     declareAsNew();
 }
 
@@ -4360,12 +4358,8 @@ MEDCoupling1DGTUMesh::accumulateVTK94Arrays(
 void
 MEDCoupling1DGTUMesh::setNodalConnectivity(DataArrayIdType *nodalConn, DataArrayIdType *nodalConnIndex)
 {
-    if (nodalConn)
-        nodalConn->incrRef();
-    _conn = nodalConn;
-    if (nodalConnIndex)
-        nodalConnIndex->incrRef();
-    _conn_indx = nodalConnIndex;
+    _conn.takeRef(nodalConn);
+    _conn_indx.takeRef(nodalConnIndex);
     declareAsNew();
 }
 
diff --git a/src/MEDCoupling/MEDCouplingFieldT.txx b/src/MEDCoupling/MEDCouplingFieldT.txx
index c20444c..23d1af1 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.txx
+++ b/src/MEDCoupling/MEDCouplingFieldT.txx
@@ -103,8 +103,7 @@ MEDCouplingFieldT<T>::setQuantityKind(QuantityKindAbstract *newQKind)
     {
         THROW_IK_EXCEPTION("setQuantityKind : input must be not nullptr");
     }
-    newQKind->incrRef();
-    this->_quantity_kind = newQKind;
+    this->_quantity_kind.takeRef(newQKind);
 }
 
 /*!
diff --git a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
index dfd08d0..82f97d4 100644
--- a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
+++ b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
@@ -199,14 +199,12 @@ MEDCouplingSkyLineArray::getDirectChildrenWithNull() const
 void
 MEDCouplingSkyLineArray::set(DataArrayIdType *index, DataArrayIdType *value)
 {
-    _index = index;
-    _values = value;
-    if ((DataArrayIdType *)_index)
-        _index->incrRef();
+    if (index)
+        _index.takeRef(index);
     else
         _index = DataArrayIdType::New();
-    if ((DataArrayIdType *)_values)
-        _values->incrRef();
+    if (value)
+        _values.takeRef(value);
     else
         _values = DataArrayIdType::New();
 }
@@ -214,9 +212,8 @@ MEDCouplingSkyLineArray::set(DataArrayIdType *index, DataArrayIdType *value)
 void
 MEDCouplingSkyLineArray::set3(DataArrayIdType *superIndex, DataArrayIdType *index, DataArrayIdType *value)
 {
-    _super_index = superIndex;
-    if ((DataArrayIdType *)_super_index)
-        _super_index->incrRef();
+    if (superIndex)
+        _super_index.takeRef(superIndex);
     else
         _super_index = DataArrayIdType::New();
     set(index, value);
-- 
2.43.0


From 7c9dcc777c81e8b9541c300b049ec59bf4b09c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:14 +0000
Subject: [PATCH 122/122] fix: the time label of fields, extruded meshes and
 arrays missed changes of their contents

---
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx    |  1 +
 src/MEDCoupling/MEDCouplingField.cxx              |  6 ++++++
 src/MEDCoupling/MEDCouplingFieldDouble.cxx        |  3 +--
 src/MEDCoupling/MEDCouplingFieldT.hxx             |  1 +
 src/MEDCoupling/MEDCouplingFieldT.txx             | 12 ++++++++++++
 src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx |  6 ++++++
 src/MEDCoupling/MEDCouplingMemArray.txx           |  2 ++
 7 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index 039ac60..e680fdd 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -361,6 +361,7 @@ MEDCouplingCurveLinearMesh::setNodeGridStructure(const mcIdType *gridStructBg, c
     {
         _structure.resize(0);
         _structure.insert(_structure.end(), gridStructBg, gridStructEnd);
+        declareAsNew();
     }
     else
     {
diff --git a/src/MEDCoupling/MEDCouplingField.cxx b/src/MEDCoupling/MEDCouplingField.cxx
index a4d61bb..f416d9b 100644
--- a/src/MEDCoupling/MEDCouplingField.cxx
+++ b/src/MEDCoupling/MEDCouplingField.cxx
@@ -171,9 +171,15 @@ void
 MEDCouplingField::updateTime() const
 {
     if (_mesh)
+    {
+        _mesh->updateTime();
         updateTimeWith(*_mesh);
+    }
     if (_type)
+    {
+        _type->updateTime();
         updateTimeWith(*_type);
+    }
 }
 
 std::size_t
diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index 6f086eb..4e41bf8 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -1646,8 +1646,7 @@ MEDCouplingFieldDouble::getNumberOfValues() const
 void
 MEDCouplingFieldDouble::updateTime() const
 {
-    MEDCouplingField::updateTime();
-    updateTimeWith(*timeDiscr());
+    MEDCouplingFieldT<double>::updateTime();
 }
 
 std::size_t
diff --git a/src/MEDCoupling/MEDCouplingFieldT.hxx b/src/MEDCoupling/MEDCouplingFieldT.hxx
index c15d325..8c10d42 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.hxx
+++ b/src/MEDCoupling/MEDCouplingFieldT.hxx
@@ -83,6 +83,7 @@ class MEDCouplingFieldT : public MEDCouplingField
     void setEndTimeValue(double val) { _time_discr->setEndTimeValue(val); }
     void setTime(double val, int iteration, int order) { _time_discr->setTime(val, iteration, order); }
     MEDCOUPLING_EXPORT void synchronizeTimeWithMesh();
+    MEDCOUPLING_EXPORT void updateTime() const;
     void setStartTime(double val, int iteration, int order) { _time_discr->setStartTime(val, iteration, order); }
     void setEndTime(double val, int iteration, int order) { _time_discr->setEndTime(val, iteration, order); }
     double getTime(int &iteration, int &order) const { return _time_discr->getTime(iteration, order); }
diff --git a/src/MEDCoupling/MEDCouplingFieldT.txx b/src/MEDCoupling/MEDCouplingFieldT.txx
index 23d1af1..15d5e73 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.txx
+++ b/src/MEDCoupling/MEDCouplingFieldT.txx
@@ -106,6 +106,18 @@ MEDCouplingFieldT<T>::setQuantityKind(QuantityKindAbstract *newQKind)
     this->_quantity_kind.takeRef(newQKind);
 }
 
+template <class T>
+void
+MEDCouplingFieldT<T>::updateTime() const
+{
+    MEDCouplingField::updateTime();
+    if (_time_discr)
+    {
+        _time_discr->updateTime();
+        updateTimeWith(*_time_discr);
+    }
+}
+
 /*!
  * This method synchronizes time information (time, iteration, order, time unit) regarding the information in \c
  * this->_mesh.
diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 1ea60ae..6879b5b 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -518,9 +518,15 @@ void
 MEDCouplingMappedExtrudedMesh::updateTime() const
 {
     if (_mesh2D.isNotNull())
+    {
+        _mesh2D->updateTime();
         updateTimeWith(*_mesh2D);
+    }
     if (_mesh1D.isNotNull())
+    {
+        _mesh1D->updateTime();
         updateTimeWith(*_mesh1D);
+    }
 }
 
 void
diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 63b4bf1..1c9a6f8 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -3798,6 +3798,7 @@ DataArrayTemplateClassic<T>::aggregate(const typename Traits<T>::ArrayType *othe
     if (this->getNumberOfComponents() != other->getNumberOfComponents())
         throw INTERP_KERNEL::Exception("DataArrayDouble::aggregate : mismatch number of components !");
     this->_mem.insertAtTheEnd(other->begin(), other->end());
+    this->declareAsNew();
 }
 
 /*!
@@ -6283,6 +6284,7 @@ DataArrayDiscrete<T>::applyPow(T val)
     if (val == 0)
     {
         std::fill(ptr, ptr + nbOfElems, 1);
+        this->declareAsNew();
         return;
     }
     for (std::size_t i = 0; i < nbOfElems; i++, ptr++)
-- 
2.43.0

