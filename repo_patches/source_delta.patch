From 54a9520b93eefe4b6ef865465217e289643508ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 01/65] fix: keep bonds parallel to the cone axis in
 BondCalculator.filterCone

Round-off in the dot product of unit vectors could exceed one, produce NaN
angle and drop bonds that point exactly along the cone axis.
---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..8a7adbc 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -285,7 +285,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // avoid NaN from cosine outside [-1, 1] due to a round-off
+        double ca = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(ca);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From 039ab3cf43a7111ea23e52bbc25411c778d068b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 02/65] fix: wrap atoms to the unit cell in crystals without
 symmetry operations

CrystalStructureAdapter with no symmetry operations kept atom positions
outside of the cell, but its bond generator assumes they are inside.
Some bonds were therefore missed.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..de84232 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -191,7 +191,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         assert(eqsumpos.empty());
         assert(eqduplicity.empty());
         eqsites.push_back(a0);
-        eqsumpos.push_back(a0.xyz_cartn);
+        eqsumpos.push_back(L.ucvFractional(a0.xyz_cartn));
         eqduplicity.push_back(1);
     }
     // calculate mean values from equivalent sites and adjust any roundoffs
-- 
2.43.0


From c8a21b5fe8eb428e120fc73d48f54a7d091fd2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 03/65] fix: average equivalent positions within the same
 lattice cell

CrystalStructureAdapter::expandLatticeAtom took the mean of fractional
coordinates that were wrapped to the unit cell, thus a special position
near a cell face could be averaged to the center of the cell.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index de84232..3b92934 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -164,6 +164,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     const Lattice& L = this->getLattice();
     SymOpVector::const_iterator op = msymops.begin();
     Atom a1 = a0;
+    R3::Vector dxyz;
     for (; op != msymops.end(); ++op)
     {
         // positions and Uij-s are actually fractional here
@@ -181,7 +182,13 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // use the image closest to the first equivalent position, because
+        // equivalent positions may be at the opposite faces of the cell
+        dxyz = a1.xyz_cartn - eqsites[ieq].xyz_cartn;
+        dxyz[0] -= round(dxyz[0]);
+        dxyz[1] -= round(dxyz[1]);
+        dxyz[2] -= round(dxyz[2]);
+        eqsumpos[ieq] += eqsites[ieq].xyz_cartn + dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
@@ -202,7 +209,8 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     vector<int>::const_iterator dpi = eqduplicity.begin();
     for (; ai != eqsites.end(); ++ai, ++sii, ++dpi)
     {
-        ai->xyz_cartn = (*sii) / (*dpi);
+        dxyz = (*sii) / (*dpi);
+        ai->xyz_cartn = L.ucvFractional(dxyz);
     }
     return eqsites;
 }
-- 
2.43.0


From 6ac3a0aebd129592cedb6cefd3afc98aef5ce48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 04/65] fix: use matching position and Uij of the anchor atom
 in crystals

Bond generator places the anchor atom at its first symmetry position, but
Ucartesian0 was taken from the asymmetric unit.  The two do not match when
identity is not the first symmetry operation.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 9 ++++++++-
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 3b92934..225a66b 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -310,6 +310,13 @@ void CrystalStructureBondGenerator::selectAnchorSite(int anchor)
 }
 
 
+const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
+{
+    // displacement tensor must correspond to the anchor position mr0
+    return this->symatoms(this->site0())[0].uij_cartn;
+}
+
+
 const R3::Matrix& CrystalStructureBondGenerator::Ucartesian1() const
 {
     return *mpuc1;
@@ -363,7 +370,7 @@ void CrystalStructureBondGenerator::updater1()
 // Private Methods -----------------------------------------------------------
 
 const CrystalStructureAdapter::AtomVector&
-CrystalStructureBondGenerator::symatoms(int idx)
+CrystalStructureBondGenerator::symatoms(int idx) const
 {
     assert(0 <= idx && idx < int(mcstructure->msymatoms.size()));
     return mcstructure->msymatoms[idx];
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..30138a2 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -148,6 +148,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         virtual void selectAnchorSite(int);
 
         // data access
+        virtual const R3::Matrix& Ucartesian0() const;
         virtual const R3::Matrix& Ucartesian1() const;
 
     protected:
@@ -168,7 +169,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         typedef CrystalStructureAdapter::AtomVector AtomVector;
 
         // methods
-        const AtomVector& symatoms(int idx);
+        const AtomVector& symatoms(int idx) const;
 
 };
 
-- 
2.43.0


From 4f7fafc0f9413a2cb21124ff87183de6c717fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 05/65] fix: do not reuse value from before setStructure in
 OPTIMIZED evaluation

---
 src/diffpy/srreal/PQEvaluator.cpp  |  8 ++++----
 src/diffpy/srreal/PairQuantity.cpp | 16 ++++++++++++----
 src/diffpy/srreal/PairQuantity.hpp |  1 +
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..bdf2871 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -97,7 +97,7 @@ void PQEvaluatorBasic::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
     mtypeused = BASIC;
-    pq.setStructure(stru);
+    pq.updateStructure(stru);
     BaseBondGeneratorPtr bnds = pq.mstructure->createBondGenerator();
     pq.configureBondGenerator(*bnds);
     int cntsites = pq.mstructure->countSites();
@@ -244,13 +244,13 @@ void PQEvaluatorOptimized::updateValue(
         }
     }
     // Add contributions from the new atoms in the updated structure
-    // save current value to override the resetValue call from setStructure
+    // save current value to override the resetValue call from updateStructure
     assert(sd.stru1);
     pq.stashPartialValue();
-    // setStructure(stru1) calls stru1->customPQConfig(pq), which may totally
+    // updateStructure(stru1) calls stru1->customPQConfig(pq), which may totally
     // change pq configuration.  If so, revert to full calculation.
     assert(pq.ticker() < mvalue_ticker);
-    pq.setStructure(sd.stru1);
+    pq.updateStructure(convertToStructureAdapter(sd.stru1));
     if (pq.ticker() >= mvalue_ticker)
     {
         return this->updateValueCompletely(pq, stru);
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..579f959 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,10 +68,9 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
-    mstructure = stru.get() ? stru : emptyStructureAdapter();
-    mstructure->customPQConfig(this);
-    this->updateMaskData();
-    this->resetValue();
+    // the value gets reset, therefore it is no longer valid for fast updates
+    mticker.click();
+    this->updateStructure(stru);
 }
 
 
@@ -339,6 +338,15 @@ bool PairQuantity::getTypeMask(const string& smbli, const string& smblj) const
 
 // Protected Methods ---------------------------------------------------------
 
+void PairQuantity::updateStructure(StructureAdapterPtr stru)
+{
+    mstructure = stru.get() ? stru : emptyStructureAdapter();
+    mstructure->customPQConfig(this);
+    this->updateMaskData();
+    this->resetValue();
+}
+
+
 void PairQuantity::resizeValue(size_t sz)
 {
     mvalue.resize(sz);
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..8488774 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -88,6 +88,7 @@ class PairQuantity : public diffpy::Attributes
             replacePairQuantityStructure(PairQuantity&, StructureAdapterPtr);
 
         // methods
+        void updateStructure(StructureAdapterPtr);
         virtual void resizeValue(size_t);
         virtual void resetValue();
         virtual void configureBondGenerator(BaseBondGenerator&) const;
-- 
2.43.0


From 2fabb9e96f93428293b4ce1b8806fb3727704f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 06/65] fix: do not reuse partial value after a failed
 evaluation

---
 src/diffpy/srreal/PQEvaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index bdf2871..d43a0f5 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -200,6 +200,8 @@ void PQEvaluatorOptimized::updateValue(
     }
     // Remove contributions from the extra sites in the old structure
     assert(sd.stru0 == mlast_structure);
+    // a partially updated value must not be reused if anything below throws
+    mlast_structure.reset();
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
@@ -301,6 +303,7 @@ void PQEvaluatorOptimized::updateValue(
 void PQEvaluatorOptimized::updateValueCompletely(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
+    mlast_structure.reset();
     this->PQEvaluatorBasic::updateValue(pq, stru);
     mlast_structure = pq.getStructure()->clone();
 }
-- 
2.43.0


From 3c30f59125d658b03e75afd3d28f7516c7e68ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 07/65] fix: use magnitude of the largest value for
 PQEvaluatorCheck tolerance

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index d43a0f5..3e01dd4 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -335,7 +335,7 @@ class pqresults
             QuantityType::const_iterator smx = max_element(
                     msaved_value.begin(), msaved_value.end(), cmpfabs);
             const double eps = R3::SQRT_DOUBLE_EPS *
-                (msaved_value.empty() ? 1.0 : max(*smx, 1.0));
+                (msaved_value.empty() ? 1.0 : max(fabs(*smx), 1.0));
             mathutils::EpsilonEqual allclose(eps);
             const QuantityType& cur_value = pq.value();
             return allclose(msaved_value, cur_value);
-- 
2.43.0


From 059e6235f5abac6dc6bddd64df63ad8edad13d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 08/65] fix: support serialization of calculators that use
 PQEvaluatorCheck

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 3e01dd4..b17a55f 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -475,5 +475,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..0393e5c 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -160,5 +160,6 @@ PQEvaluatorPtr createPQEvaluator(
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From dceffcb4b2560c45c69ecc87a243859c5d0255ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 09/65] fix: do not update values computed for another parallel
 share

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index b17a55f..5535838 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,8 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    // values for another share of the pair sum cannot be updated
+    if (mcpuindex != cpuindex || mncpu != ncpu)  mvalue_ticker = eventticker::EventTicker();
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
-- 
2.43.0


From 1f7ec308e5a5a3576ae0634fa90539b78308919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 10/65] fix: update symmetry positions after in-place change of
 atoms or lattice

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 13 +++++++++----
 src/diffpy/srreal/CrystalStructureAdapter.hpp |  9 +++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 225a66b..c65cce5 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -69,7 +69,7 @@ BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 
 int CrystalStructureAdapter::siteMultiplicity(int idx) const
 {
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     int rv = msymatoms[idx].size();
     return rv;
 }
@@ -147,7 +147,7 @@ const CrystalStructureAdapter::AtomVector&
 CrystalStructureAdapter::getEquivalentAtoms(int idx) const
 {
     assert(0 <= idx && idx < this->countSites());
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     return msymatoms[idx];
 }
 
@@ -233,6 +233,8 @@ void CrystalStructureAdapter::updateSymmetryPositions() const
         iterator ai = saii->begin();
         for (; ai != saii->end(); ++ai)  this->toCartesian(*ai);
     }
+    msymatoms_source.assign(this->begin(), this->end());
+    msymatoms_lattice = this->getLattice();
     msymmetry_cached = true;
 }
 
@@ -256,10 +258,13 @@ int CrystalStructureAdapter::findEqualPosition(
     return -1;
 }
 
-bool CrystalStructureAdapter::isSymmetryCached() const
+bool CrystalStructureAdapter::isSymmetryCached(int idx) const
 {
     msymmetry_cached = msymmetry_cached &&
-        (int(msymatoms.size()) == this->countSites());
+        (int(msymatoms.size()) == this->countSites()) &&
+        (msymatoms_source.size() == msymatoms.size()) &&
+        (msymatoms_lattice == this->getLattice()) &&
+        (msymatoms_source[idx] == this->at(idx));
     return msymmetry_cached;
 }
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 30138a2..c3a8640 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -100,15 +100,16 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
         SymOpVector msymops;
         double msymmetry_precision;
         mutable std::vector<AtomVector> msymatoms;
+        /// asymmetric unit and lattice that were used to create msymatoms
+        mutable AtomVector msymatoms_source;
+        mutable Lattice msymatoms_lattice;
         mutable bool msymmetry_cached;
 
         // symmetry helpers
         /// return index of AtomVector atom at an equal position or -1
         int findEqualPosition(const AtomVector&, const Atom&) const;
-        /// fuzzy check if symmetry positions are up to date
-        /// this only detects addition or removal of atom in the asymmetric
-        /// unit, but does not check for changes in atom positions.
-        bool isSymmetryCached() const;
+        /// check if symmetry positions are up to date for the given site
+        bool isSymmetryCached(int idx) const;
 
         // comparison
         friend bool operator==(
-- 
2.43.0


From 717a27dc8be0f7df7e2735f0b659d45ece77fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 11/65] fix: refuse fast update between structures of different
 kind

---
 src/diffpy/srreal/AtomicStructureAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..0716bd2 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -19,6 +19,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <typeinfo>
 #include <boost/functional/hash.hpp>
 
 #include <diffpy/serialization.ipp>
@@ -173,6 +174,8 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // same atoms have different bonds in a derived periodic adapter
+    if (typeid(*this) != typeid(*pother))  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
-- 
2.43.0


From ae47422fb51e29a5079212669985a3df0d7cd5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 12/65] fix: weigh bond valence contributions by site
 multiplicities

---
 src/diffpy/srreal/BVSCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..f09463c 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -175,8 +175,12 @@ void BVSCalculator::addPairContribution(const BaseBondGenerator& bnds,
     int pm1 = (v1 >= 0) ? 1 : -1;
     const double& o0 = mstructure->siteOccupancy(bnds.site0());
     const double& o1 = mstructure->siteOccupancy(bnds.site1());
+    // the generator visits bonds from one site0 position in the unit cell,
+    // rescale to the number of such bonds per one site1 position.
+    const double mscale1 = (bnds.site0() == bnds.site1()) ? 1.0 :
+        (1.0 * bnds.multiplicity() / mstructure->siteMultiplicity(bnds.site1()));
     mvalue[bnds.site0()] += summationscale * pm0 * valencehalf * o1;
-    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0;
+    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0 * mscale1;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 501f8b67213117804b86951094b8507be7b9728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 13/65] fix: apply rmin in BVSCalculator

---
 src/diffpy/srreal/BVSCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index f09463c..112cd65 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -155,6 +155,7 @@ void BVSCalculator::resetValue()
 
 void BVSCalculator::configureBondGenerator(BaseBondGenerator& bnds) const
 {
+    bnds.setRmin(this->getRmin());
     bnds.setRmax(this->getRmaxUsed());
 }
 
-- 
2.43.0


From c737999fe56c4973878d1cfd1a5234167e021244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 14/65] fix: make lookup of bond valence parameters independent
 of atom order

---
 src/diffpy/srreal/BVParam.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..cd3f0c9 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -46,7 +46,8 @@ BVParam::BVParam(const string& atom0, int valence0,
     mvalence0 = valence0;
     matom1 = atom1;
     mvalence1 = valence1;
-    if (mvalence0 < mvalence1)
+    // use unique order of atoms also when they have the same valence
+    if (mvalence0 < mvalence1 || (mvalence0 == mvalence1 && matom1 < matom0))
     {
         swap(matom0, matom1);
         swap(mvalence0, mvalence1);
-- 
2.43.0


From 652245d96bc9d56f307e055853357b45ff11a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 15/65] fix: include occupancy and multiplicity in overlap
 gradients

---
 src/diffpy/srreal/OverlapCalculator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..d92eccf 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -238,9 +238,13 @@ vector<R3::Vector> OverlapCalculator::gradients() const
         if (olp <= 0.0)  continue;
         const double& dst = this->subvalue(DISTANCE_OFFSET, index);
         assert(eps_gt(dst, 0.0));
+        int i = int(this->subvalue(SITE0_OFFSET, index));
         int j = int(this->subvalue(SITE1_OFFSET, index));
-        gij = -2.0 * olp / dst * this->subdirection(index);
-        rv[j] += gij;
+        // bonds are generated from one of the equivalent positions of site i
+        const double scale = mstructure->siteMultiplicity(i) *
+            mstructure->siteOccupancy(i) * mstructure->siteOccupancy(j);
+        gij = 2.0 * olp / dst * scale * this->subdirection(index);
+        rv[i] += gij;
     }
     return rv;
 }
-- 
2.43.0


From 0a16bd0d53bdefb2f434f77b8e654c9339267f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 16/65] fix: update cached overlap neighbors after merge of
 parallel data

---
 src/diffpy/srreal/OverlapCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index d92eccf..660aa9c 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -456,6 +456,7 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     diffpy::serialization::iarchive ia(storage, ios::binary);
     QuantityType pvalue;
     ia >> pvalue;
+    mneighborids_cached = false;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
 }
 
@@ -548,7 +549,7 @@ OverlapCalculator::getNeighborIds(int k) const
     assert(0 <= k && k < this->countSites());
     if (!mneighborids_cached)
     {
-        assert(mneighborids.empty());
+        mneighborids.clear();
         int n = this->count();
         for (int idx = 0; idx < n; ++idx)
         {
-- 
2.43.0


From 377090ece3da03ecaff113c2a751a7587c0e7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 17/65] fix: rebuild cached overlap neighbors after restoring
 OverlapCalculator

---
 src/diffpy/srreal/OverlapCalculator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..df90ce1 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -127,6 +127,7 @@ class OverlapCalculator : public PairQuantity
             ar & mneighborids;
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
+            if (Archive::is_loading::value)  mneighborids_cached = false;
         }
 
 };
-- 
2.43.0


From a4bab0a76a74f6244a3e4d49cc62bd0870d2c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 18/65] fix: allow reading rmaxused after in-place edit of the
 structure

---
 src/diffpy/srreal/BVSCalculator.cpp     | 7 ++++---
 src/diffpy/srreal/OverlapCalculator.cpp | 1 -
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 112cd65..4e5ccb4 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -210,9 +210,10 @@ double BVSCalculator::rmaxFromPrecision(double eps) const
         boost::hash< pair<string, int> >
             > SymbolValenceSet;
     SymbolValenceSet allsymvals;
-    assert(int(mstructure_cache.baresymbols.size()) == this->countSites());
-    assert(int(mstructure_cache.valences.size()) == this->countSites());
-    for (int i = 0; i < this->countSites(); ++i)
+    // the structure may have changed since the data were cached
+    const int cntcached = mstructure_cache.baresymbols.size();
+    assert(int(mstructure_cache.valences.size()) == cntcached);
+    for (int i = 0; i < cntcached; ++i)
     {
         allsymvals.insert(make_pair(mstructure_cache.baresymbols[i],
                     mstructure_cache.valences[i]));
diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 660aa9c..dee9579 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -409,7 +409,6 @@ const AtomRadiiTablePtr& OverlapCalculator::getAtomRadiiTable() const
 
 double OverlapCalculator::getRmaxUsed() const
 {
-    assert(this->countSites() == int(mstructure_cache.siteradii.size()));
     double rv = min(this->getRmax(), mstructure_cache.maxseparation);
     return rv;
 }
-- 
2.43.0


From e5cf3dccf13608d15075c68cdbe484fe81b8b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 19/65] fix: return arc sine from asind

---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From 4abc306c39cdc5bb45b6b539d4b6f7139d307531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 20/65] fix: return defined angle for parallel lattice vectors

---
 src/diffpy/srreal/Lattice.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/Lattice.hpp b/src/diffpy/srreal/Lattice.hpp
index 4e9146c..8a4eb05 100644
--- a/src/diffpy/srreal/Lattice.hpp
+++ b/src/diffpy/srreal/Lattice.hpp
@@ -502,6 +502,8 @@ double Lattice::angledeg(const V& u, const V& v) const
 {
     using diffpy::mathutils::acosd;
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid undefined values due to round-off for parallel vectors
+    if (fabs(ca) > 1.0)  ca = (ca > 0.0) ? 1.0 : -1.0;
     return acosd(ca);
 }
 
@@ -510,6 +512,8 @@ template <class V>
 double Lattice::anglerad(const V& u, const V& v) const
 {
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid undefined values due to round-off for parallel vectors
+    if (fabs(ca) > 1.0)  ca = (ca > 0.0) ? 1.0 : -1.0;
     return acos(ca);
 }
 
-- 
2.43.0


From a2f0be853d228e090c6f1d328545ca0c5e4fd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 21/65] fix: keep lattice unchanged when setLatBase rejects its
 arguments

---
 src/diffpy/srreal/Lattice.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..5ff1539 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,11 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    R3::Matrix base1;
+    R3::row(base1, 0) = va0;
+    R3::row(base1, 1) = vb0;
+    R3::row(base1, 2) = vc0;
+    double detbase = R3::determinant(base1);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,6 +119,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = base1;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From 09f7d644e46c8f17ef6fe8d08991ef709d834f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 22/65] fix: use site occupancy in cached Debye scattering
 factors

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..b713817 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <cassert>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <sstream>
@@ -234,19 +235,21 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // site scattering factors depend on both atom type and occupancy
+    map<pair<string,double>,int> atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const pair<string,double> sftp(mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(sftp))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(sftp, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[sftp];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From 961897c2659496fc355aeb8bb12ef8fb7f93c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 23/65] fix: avoid out of range access in getF after change of
 Q-grid

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index b713817..ebace51 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -79,7 +79,8 @@ QuantityType BaseDebyeSum::getF() const
 {
     QuantityType rv = this->value();
     const double& totocc = mstructure_cache.totaloccupancy;
-    const int npts = pdfutils_qmaxSteps(this);
+    // stay within evaluated points if Q-grid has changed since
+    const int npts = min(pdfutils_qmaxSteps(this), int(rv.size()));
     for (int kq = pdfutils_qminSteps(this); kq < npts; ++kq)
     {
         double sfavg = this->sfAverageAtkQ(kq);
-- 
2.43.0


From 6489cebdb1dd48966d2bb0344fcd51d9be7e18b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 24/65] fix: avoid out of range access in getPDFAtQmin at the
 end of Fourier grid

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..de59950 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -312,8 +312,11 @@ QuantityType DebyePDFCalculator::getPDFAtQmin(double qmin) const
         int iphi = iplo + 1;
         double wphi = xdrp - iplo;
         double wplo = 1.0 - wphi;
-        assert(iphi < int(gpad.size()));
-        *pdfi = wplo * gpad[iplo] + wphi * gpad[iphi];
+        // sine transform is zero at its upper end, i.e., at gpad.size()
+        const int npad = gpad.size();
+        double glo = (iplo < npad) ? gpad[iplo] : 0.0;
+        double ghi = (iphi < npad) ? gpad[iphi] : 0.0;
+        *pdfi = wplo * glo + wphi * ghi;
     }
     return pdf0;
 }
-- 
2.43.0


From 6f93afcef3360e14be2e2502ea0233da06593125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 25/65] fix: recalculate Debye sum when pair distance limits
 change

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index de59950..f63b944 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -386,12 +386,16 @@ void DebyePDFCalculator::cacheRlimitsData() const
     const double& rmin = this->getRmin();
     const double& rmax = this->getRmax();
     const double& dr = this->getRstep();
+    const int lo0 = mrcalclosteps;
+    const int hi0 = mrcalchisteps;
     mrcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     const int nhi = pdfutils_rmaxSteps(rmax + ext_total, dr);
     if (nhi <= (mrcalchisteps - minreductionsteps) || nhi > mrcalchisteps)
     {
         mrcalchisteps = nhi;
     }
+    // Debye sum must be recalculated if it includes different pair distances
+    if (mrcalclosteps != lo0 || mrcalchisteps != hi0)  mticker.click();
     mrlimits_are_cached = true;
 }
 
-- 
2.43.0


From 244136855e29b5c1e71bf717bb4639dfd6d913c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 26/65] fix: recalculate PDF when the calculated r-range
 extends

---
 src/diffpy/srreal/PDFCalculator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..c9d72b9 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -60,7 +60,8 @@ PDFCalculator::PDFCalculator() :
     mqmin(0.0),
     mqmax(DOUBLE_MAX),
     mrstep(DEFAULT_PDFCALCULATOR_RSTEP),
-    mmaxextension(DEFAULT_PDFCALCULATOR_MAXEXTENSION)
+    mmaxextension(DEFAULT_PDFCALCULATOR_MAXEXTENSION),
+    mrlimits_cache()
 {
     // default configuration
     mrmax = DEFAULT_PDFCALCULATOR_RMAX;
@@ -727,6 +728,8 @@ void PDFCalculator::cacheStructureData()
 
 void PDFCalculator::cacheRlimitsData()
 {
+    const int lo0 = mrlimits_cache.rcalclosteps;
+    const int hi0 = mrlimits_cache.rcalchisteps;
     mrlimits_cache.extendedrminsteps = 0;
     mrlimits_cache.extendedrmaxsteps = 0;
     mrlimits_cache.rcalclosteps = 0;
@@ -751,6 +754,10 @@ void PDFCalculator::cacheRlimitsData()
     mrlimits_cache.extendedrmaxsteps = pdfutils_rmaxSteps(rmax + ext_ripples, dr);
     mrlimits_cache.rcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     mrlimits_cache.rcalchisteps = pdfutils_rmaxSteps(rmax + ext_total, dr);
+    // there is no partial value to be reused outside of the previous range
+    const bool extended =
+        mrlimits_cache.rcalclosteps < lo0 || mrlimits_cache.rcalchisteps > hi0;
+    if (extended)  mticker.click();
 }
 
 }   // namespace diffpy
-- 
2.43.0


From b1fb67125cf082653307cc67a9ee5d0ee80c339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 27/65] fix: avoid out of range cut in getPDF after change of
 r-range

---
 src/diffpy/srreal/PDFCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index c9d72b9..9c57683 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -659,7 +659,9 @@ void PDFCalculator::cutRipplePoints(QuantityType& y) const
             this->extendedRmaxSteps() - this->extendedRminSteps());
     int ncutlo = pdfutils_rminSteps(this) - this->extendedRminSteps();
     int ncuthi = this->extendedRmaxSteps() - pdfutils_rmaxSteps(this);
-    assert(ncutlo + ncuthi <= int(y.size()));
+    // stay within evaluated points if r-grid has changed since
+    ncuthi = min(max(ncuthi, 0), int(y.size()));
+    ncutlo = min(max(ncutlo, 0), int(y.size()) - ncuthi);
     y.erase(y.end() - ncuthi, y.end());
     y.erase(y.begin(), y.begin() + ncutlo);
 }
-- 
2.43.0


From ce8ef42dfb692e5a794dcfffc8cbe0b079c120e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 28/65] fix: keep DebyePDFCalculator unchanged when setQmax
 rejects its argument

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index f63b944..a36d99e 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -140,6 +140,8 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    // optimum qstep is a fraction of qmax and it must be epsilon positive
+    if (this->getQmax() != qmax)  ensureEpsilonPositive("Qmax", qmax / 4);
     this->BaseDebyeSum::setQmax(qmax);
     this->updateQstep();
 }
-- 
2.43.0


From 79cd9314821e8ff25ecc28955d9b03de5b80d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 29/65] fix: refuse merge of incomplete overlap data

---
 src/diffpy/srreal/OverlapCalculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index dee9579..ca07689 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -455,6 +455,10 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     diffpy::serialization::iarchive ia(storage, ios::binary);
     QuantityType pvalue;
     ia >> pvalue;
+    if (pvalue.size() % CHUNK_SIZE)
+    {
+        throw invalid_argument("Merged data array must have complete chunks.");
+    }
     mneighborids_cached = false;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
 }
-- 
2.43.0


From 96b7f061514d1bb812a9745933988d10c4d0fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 30/65] fix: resolve conflicting masks of all pairs of a site
 in call order

---
 src/diffpy/srreal/PairQuantity.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 579f959..88ee74f 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -236,7 +236,14 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
-            this->setPairMaskValue(k, l, mask);
+            if (this->setPairMaskValue(k, l, mask))  modified = true;
+        }
+        // the latest call prevails over conflicting masks of other sites
+        unordered_map<int, bool>::const_iterator mm;
+        for (mm = msiteallmask.begin(); mm != msiteallmask.end(); ++mm)
+        {
+            if (mm->second == mask)  continue;
+            if (this->setPairMaskValue(k, mm->first, mask))  modified = true;
         }
         if (modified)  mticker.click();
         return;
@@ -433,11 +440,17 @@ void PairQuantity::updateMaskData()
     // Propagate masks with ALLATOMSINT to all valid indices.
     if (mtypemask.empty())
     {
-        unordered_map<int, bool>::const_iterator ia;
+        unordered_map<int, bool>::const_iterator ia, ja;
         for (ia = msiteallmask.begin(); ia != msiteallmask.end(); ++ia)
         {
             for (int j = 0; j < cntsites; ++j)
             {
+                // conflicting masks were resolved in setPairMask
+                ja = msiteallmask.find(j);
+                if (ja != msiteallmask.end() && ja->second != ia->second)
+                {
+                    continue;
+                }
                 this->setPairMaskValue(ia->first, j, ia->second);
             }
         }
-- 
2.43.0


From b69b167b3b9e05f8dad4664458360e9dd22e0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 31/65] fix: resolve conflicting all-type masks in call order

---
 src/diffpy/srreal/PairQuantity.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 88ee74f..3a1b12e 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -320,6 +320,26 @@ setTypeMask(string smbli, string smblj, bool mask)
             else  ++tpmsk;
         }
     }
+    // the latest call prevails over conflicting all-masks of other types
+    if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
+    {
+        const string& sk = (ALLATOMSSTR != smbli) ? smbli : smblj;
+        list<string> conflicts;
+        TypeMaskStorage::const_iterator tpmsk;
+        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        {
+            const pair<string,string>& tp = tpmsk->first;
+            if (tp == smblij || mask == tpmsk->second)  continue;
+            if (ALLATOMSSTR == tp.first)  conflicts.push_back(tp.second);
+            else if (ALLATOMSSTR == tp.second)  conflicts.push_back(tp.first);
+        }
+        list<string>::const_iterator cc = conflicts.begin();
+        for (; cc != conflicts.end(); ++cc)
+        {
+            mtypemask[(sk > *cc) ?
+                make_pair(*cc, sk) : make_pair(sk, *cc)] = mask;
+        }
+    }
     pair<TypeMaskStorage::iterator, bool> pmm;
     pmm = mtypemask.emplace(smblij, mask);
     if (pmm.second || pmm.first->second != mask)  modified = true;
-- 
2.43.0


From be7c2bded16e393a2607cbf656a3e0c6b7cca5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 32/65] fix: keep type masks when switching to pair masks
 before evaluation

---
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 3a1b12e..c764187 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -222,6 +222,8 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
     // update ticker if we are switching from type-mask mode
     if (!mtypemask.empty())
     {
+        // convert current type masks to pair masks
+        this->updateMaskData();
         mtypemask.clear();
         modified = true;
     }
-- 
2.43.0


From f3aecd0cf5cd2c4d2f68b8197d429f28387182c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 33/65] fix: do not keep partially loaded tables of standard
 data

---
 src/diffpy/srreal/BVParametersTable.cpp    |  7 ++--
 src/diffpy/srreal/scatteringfactordata.cpp | 37 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..32f2fa9 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -167,7 +167,7 @@ BVParametersTable::getStandardSetOfBVParam() const
     static unique_ptr<SetOfBVParam> the_set;
     if (!the_set)
     {
-        the_set.reset(new SetOfBVParam);
+        unique_ptr<SetOfBVParam> newset(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -186,9 +186,10 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!the_set->count(bp));
-            the_set->insert(bp);
+            assert(!newset->count(bp));
+            newset->insert(bp);
         }
+        the_set = std::move(newset);
     }
     return *the_set;
 }
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..d6212f8 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -133,7 +133,7 @@ const SetOfWKFormulas& getWKFormulasSet()
     using diffpy::validators::ensureFileOK;
     static unique_ptr<SetOfWKFormulas> the_set;
     if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    unique_ptr<SetOfWKFormulas> newset(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -172,16 +172,17 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
             }
-            if (the_set->count(wk))
+            if (newset->count(wk))
             {
                 string emsg = "Duplicate atom symbol \"";
                 emsg += wk.symbol + "\".";
                 throw line.format_error(wkfile, emsg);
             }
-            the_set->insert(wk);
+            newset->insert(wk);
             wk.symbol.clear();
         }
     }
+    the_set = std::move(newset);
     return getWKFormulasSet();
 }
 
@@ -227,7 +228,7 @@ ElectronNumberStorage& getElectronNumberTable()
     typedef ElectronNumberStorage::value_type ENPair;
     if (!entable)
     {
-        entable.reset(new ElectronNumberStorage);
+        unique_ptr<ElectronNumberStorage> newtable(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -244,22 +245,23 @@ ElectronNumberStorage& getElectronNumberTable()
                 throw line.format_error(ionfile,
                         "Expected at least 2 columns for (symbol, Z).");
             }
-            entable->insert(ENPair(element, z));
+            newtable->insert(ENPair(element, z));
             for (int v; fpline >> v;)
             {
                 ostringstream smbl;
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
-                entable->insert(ENPair(smbl.str(), z - v));
+                newtable->insert(ENPair(smbl.str(), z - v));
             }
         }
         const size_t mintablesize = 447;
-        if (entable->size() < mintablesize)
+        if (newtable->size() < mintablesize)
         {
             ostringstream emsg;
             emsg << "Incomplete file.  Expected " << mintablesize <<
-                " items loaded " << entable->size() << ".";
+                " items loaded " << newtable->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        entable = std::move(newtable);
     }
     return *entable;
 }
@@ -275,7 +277,7 @@ const NeutronBCStorage& getNeutronBCTable()
     typedef NeutronBCStorage::value_type BCPair;
     static unique_ptr<NeutronBCStorage> bctable;
     if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    unique_ptr<NeutronBCStorage> newtable(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -310,13 +312,13 @@ const NeutronBCStorage& getNeutronBCTable()
         {
             throw line.format_error(nsffile, "Invalid b_c value.");
         }
-        if (bctable->count(smbl))
+        if (newtable->count(smbl))
         {
             string emsg = "Duplicate atom symbol \"";
             emsg += smbl + "\".";
             throw line.format_error(nsffile, emsg);
         }
-        bctable->insert(BCPair(smbl, bc));
+        newtable->insert(BCPair(smbl, bc));
         // elements are not explicitly included if there is just one isotope
         // or if all isotopes are unstable
         size_t p2 = smbl.find_first_of('-');
@@ -326,23 +328,24 @@ const NeutronBCStorage& getNeutronBCTable()
             // there is just one isotope
             const string& chlf = line.words[1];
             bool addel = (chlf == "100") ||
-                (!bctable->count(el) && *chlf.rbegin() == 'Y');
+                (!newtable->count(el) && *chlf.rbegin() == 'Y');
             if (addel)
             {
-                if (bctable->count(el))
+                if (newtable->count(el))
                 {
                     string emsg = "Duplicate element entry for \"";
                     emsg += el + "\".";
                     throw line.format_error(nsffile, emsg);;
                 }
-                bctable->insert(BCPair(el, bc));
+                newtable->insert(BCPair(el, bc));
             }
         }
     }
     // define aliases for neutron, deuterium and tritium
-    bctable->insert(BCPair("n", bctable->at("1-n")));
-    bctable->insert(BCPair("D", bctable->at("2-H")));
-    bctable->insert(BCPair("T", bctable->at("3-H")));
+    newtable->insert(BCPair("n", newtable->at("1-n")));
+    newtable->insert(BCPair("D", newtable->at("2-H")));
+    newtable->insert(BCPair("T", newtable->at("3-H")));
+    bctable = std::move(newtable);
     return getNeutronBCTable();
 }
 
-- 
2.43.0


From 03d15775d1512a94a5b514a97d1fdc1d81d089ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 34/65] fix: account for off-diagonal Uij in the maximum peak
 width

---
 src/diffpy/srreal/DebyeWallerPeakWidth.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/DebyeWallerPeakWidth.cpp b/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
index 10c6bfe..850aece 100644
--- a/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
+++ b/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
@@ -17,6 +17,9 @@
 *
 *****************************************************************************/
 
+#include <algorithm>
+#include <cmath>
+
 #include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
 #include <diffpy/srreal/StructureAdapter.hpp>
 #include <diffpy/serialization.ipp>
@@ -63,7 +66,19 @@ double DebyeWallerPeakWidth::maxWidth(StructureAdapterPtr stru,
                 double rmin, double rmax) const
 {
     using diffpy::mathutils::GAUSS_SIGMA_TO_FWHM;
-    double maxmsd = 2 * maxUii(stru);
+    // bound displacements along any direction by the row sums of abs(Uij)
+    double maxu = maxUii(stru);
+    for (int i = 0; i < (stru ? stru->countSites() : 0); ++i)
+    {
+        const R3::Matrix& U = stru->siteCartesianUij(i);
+        for (int k = 0; k < R3::Ndim; ++k)
+        {
+            double u = U(k, k);
+            for (int l = 0; l < R3::Ndim; ++l)  if (l != k)  u += fabs(U(k, l));
+            maxu = max(maxu, u);
+        }
+    }
+    double maxmsd = 2 * maxu;
     double rv = (maxmsd <= 0.0) ? 0.0 : GAUSS_SIGMA_TO_FWHM * sqrt(maxmsd);
     return rv;
 }
-- 
2.43.0


From 41269c76636704827de917a0a8721979bd491036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 35/65] fix: return zero from CroppedGaussianProfile for zero
 width

---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..41dcf90 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if (fwhm <= 0)  return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From 289e52625ed45448bc14bcc366a0c408fbcbd51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 36/65] fix: skip Q = 0 in the Debye sum where electron factors
 diverge

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index ebace51..b187079 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -178,7 +178,8 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
     const int nqpts = pdfutils_qmaxSteps(this);
     const int smscale = summationscale * bnds.multiplicity();
     const double& sineprec = this->getDebyePrecision();
-    for (int kq = pdfutils_qminSteps(this); kq < nqpts; ++kq)
+    // sine term is zero at Q = 0 where scattering factors may diverge
+    for (int kq = max(1, pdfutils_qminSteps(this)); kq < nqpts; ++kq)
     {
         const double q = kq * this->getQstep();
         const double dwscale = exp(-0.5 * pow(dwsigma * q, 2));
-- 
2.43.0


From f7e1ff686db1be466ff6388fa92b28c7ad18437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 37/65] fix: compare only complete and effective results in
 PQEvaluatorCheck

---
 src/diffpy/srreal/PQEvaluator.cpp  | 39 ++++++++++++++++++++++++++++++
 src/diffpy/srreal/PairQuantity.hpp |  1 +
 2 files changed, 40 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 5535838..d678876 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -28,6 +28,7 @@
 #include <diffpy/srreal/PQEvaluator.hpp>
 #include <diffpy/srreal/PairQuantity.hpp>
 #include <diffpy/srreal/BondCalculator.hpp>
+#include <diffpy/srreal/PDFCalculator.hpp>
 #include <diffpy/srreal/StructureDifference.hpp>
 
 using namespace std;
@@ -398,8 +399,43 @@ class pqresults_bondcalculator : public pqresults
 };
 
 
+class pqresults_pdfcalculator : public pqresults
+{
+    public:
+
+        pqresults_pdfcalculator(const PDFCalculator& pdfc) :
+            pqresults(pdfc),
+            msaved_rdf(pdfc.getExtendedRDF())
+        { }
+
+
+        // The fast update can involve peaks that are past the calculated
+        // range when that range gets shorter.  Their tails in the extended
+        // r-range are limited by the peak precision.
+        virtual bool compare(const PairQuantity& pq) const
+        {
+            const PDFCalculator& pdfc = dynamic_cast<const PDFCalculator&>(pq);
+            QuantityType::const_iterator smx = max_element(
+                    msaved_rdf.begin(), msaved_rdf.end(), cmpfabs);
+            const double releps = max(R3::SQRT_DOUBLE_EPS,
+                    10 * pdfc.getPeakProfile()->getPrecision());
+            const double eps = releps *
+                (msaved_rdf.empty() ? 1.0 : max(fabs(*smx), 1.0));
+            mathutils::EpsilonEqual allclose(eps);
+            return allclose(msaved_rdf, pdfc.getExtendedRDF());
+        }
+
+    private:
+
+        // data
+        QuantityType msaved_rdf;
+};
+
+
 pqresults* create_pqresults(const PairQuantity& pq)
 {
+    const PDFCalculator* ppdf = dynamic_cast<const PDFCalculator*>(&pq);
+    if (ppdf)  return new pqresults_pdfcalculator(*ppdf);
     const BondCalculator* pbc = dynamic_cast<const BondCalculator*>(&pq);
     if (pbc)  return new pqresults_bondcalculator(*pbc);
     return new pqresults(pq);
@@ -422,8 +458,11 @@ void PQEvaluatorCheck::updateValue(
 {
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
+    // compare only complete results
+    pq.finishValue();
     unique_ptr<pqresults> results(create_pqresults(pq));
     this->PQEvaluatorBasic::updateValue(pq, stru);
+    pq.finishValue();
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index 8488774..ac30a7a 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -84,6 +84,7 @@ class PairQuantity : public diffpy::Attributes
 
         friend class PQEvaluatorBasic;
         friend class PQEvaluatorOptimized;
+        friend class PQEvaluatorCheck;
         friend StructureAdapterPtr
             replacePairQuantityStructure(PairQuantity&, StructureAdapterPtr);
 
-- 
2.43.0


From 519812b54e547fdbc1fef50dbe31b49b5edb2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 38/65] fix: allow fast PDF update on an empty r-grid

---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 9c57683..d0a96cb 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -547,8 +547,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From e8d28ff06ea2d68b2dda49e500593b61243eb4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 39/65] fix: recalculate Debye sum with reset pair distance
 limits after rstep change

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index a36d99e..5bc9ecc 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -195,10 +195,15 @@ void DebyePDFCalculator::setRmax(double rmax)
 
 void DebyePDFCalculator::setRstep(double rstep)
 {
-    // NOTE: do not update ticker here, rstep is only used in the FFT
-    // and not in the Debye summation.
+    // NOTE: do not update ticker here.  It gets updated when the limits
+    // of pair distances are recalculated for the new step.
     ensureEpsilonPositive("Rstep", rstep);
-    if (mrstep != rstep)  mrlimits_are_cached = false;
+    if (mrstep != rstep)
+    {
+        mrlimits_are_cached = false;
+        mrcalclosteps = 0;
+        mrcalchisteps = 0;
+    }
     mrstep = rstep;
 }
 
-- 
2.43.0


From d201292f9fd67a5481b17ba49269067a9a88b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 40/65] fix: keep masks of all pairs of a site for sites added
 later

---
 src/diffpy/srreal/PairQuantity.cpp | 62 ++++++++++++++++--------------
 src/diffpy/srreal/PairQuantity.hpp |  3 ++
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index c764187..c0ba1cb 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -40,7 +40,8 @@ PairQuantity::PairQuantity() :
     mstructure(emptyStructureAdapter()),
     mrmin(0.0),
     mrmax(DEFAULT_BONDGENERATOR_RMAX),
-    mdefaultpairmask(true)
+    mdefaultpairmask(true),
+    msitesmasked(0)
 {
     this->setEvaluatorType(BASIC);
     // attributes
@@ -186,6 +187,7 @@ void PairQuantity::maskAllPairs(bool mask)
     if (!nochange)  mticker.click();
     minvertpairmask.clear();
     msiteallmask.clear();
+    msitesmasked = 0;
     mtypemask.clear();
     mdefaultpairmask = mask;
 }
@@ -235,8 +237,8 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         pmm = msiteallmask.emplace(k, mask);
         if (pmm.second || pmm.first->second != mask)  modified = true;
         pmm.first->second = mask;
-        int cntsites = this->countSites();
-        for (int l = 0; l < cntsites; ++l)
+        this->propagateSiteMasks(this->countSites());
+        for (int l = 0; l < msitesmasked; ++l)
         {
             if (this->setPairMaskValue(k, l, mask))  modified = true;
         }
@@ -251,19 +253,15 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         return;
     }
     // here neither i nor j is ALLATOMSINT
-    unordered_map<int, bool>::iterator ii, jj;
+    // this pair mask must not be overwritten when masks of all pairs of
+    // a site get propagated to a larger structure
+    unordered_map<int, bool>::const_iterator ii, jj;
     ii = msiteallmask.find(i);
-    if (ii != msiteallmask.end() && mask != ii->second)
-    {
-        msiteallmask.erase(ii);
-        modified = true;
-    }
     jj = msiteallmask.find(j);
-    if (jj != msiteallmask.end() && mask != jj->second)
-    {
-        msiteallmask.erase(jj);
-        modified = true;
-    }
+    const bool differs =
+        (ii != msiteallmask.end() && mask != ii->second) ||
+        (jj != msiteallmask.end() && mask != jj->second);
+    if (differs)  this->propagateSiteMasks(max(i, j) + 1);
     modified = this->setPairMaskValue(i, j, mask) ? true : modified;
     if (modified)  mticker.click();
 }
@@ -303,6 +301,7 @@ setTypeMask(string smbli, string smblj, bool mask)
     // msiteallmask is only relevant for index-based masking.
     // clean it up to avoid unexpected effects when switching to index masks.
     msiteallmask.clear();
+    msitesmasked = 0;
     bool modified = false;
     // when all is used, remove all typemask elements with the other type
     if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
@@ -462,20 +461,7 @@ void PairQuantity::updateMaskData()
     // Propagate masks with ALLATOMSINT to all valid indices.
     if (mtypemask.empty())
     {
-        unordered_map<int, bool>::const_iterator ia, ja;
-        for (ia = msiteallmask.begin(); ia != msiteallmask.end(); ++ia)
-        {
-            for (int j = 0; j < cntsites; ++j)
-            {
-                // conflicting masks were resolved in setPairMask
-                ja = msiteallmask.find(j);
-                if (ja != msiteallmask.end() && ja->second != ia->second)
-                {
-                    continue;
-                }
-                this->setPairMaskValue(ia->first, j, ia->second);
-            }
-        }
+        this->propagateSiteMasks(cntsites);
     }
     // For type masking propagate atom types to corresponding atom indices.
     else
@@ -520,6 +506,26 @@ void PairQuantity::updateMaskData()
 }
 
 
+void PairQuantity::propagateSiteMasks(int cntsites)
+{
+    unordered_map<int, bool>::const_iterator ia, ja;
+    for (ia = msiteallmask.begin(); ia != msiteallmask.end(); ++ia)
+    {
+        for (int j = msitesmasked; j < cntsites; ++j)
+        {
+            // conflicting masks were resolved in setPairMask
+            ja = msiteallmask.find(j);
+            if (ja != msiteallmask.end() && ja->second != ia->second)
+            {
+                continue;
+            }
+            this->setPairMaskValue(ia->first, j, ia->second);
+        }
+    }
+    msitesmasked = max(msitesmasked, cntsites);
+}
+
+
 bool PairQuantity::setPairMaskValue(int i, int j, bool mask)
 {
     assert(i >= 0 && j >= 0);
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index ac30a7a..9f6241e 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -121,6 +121,7 @@ class PairQuantity : public diffpy::Attributes
         bool mdefaultpairmask;
         PairMaskStorage minvertpairmask;
         std::unordered_map<int, bool> msiteallmask;
+        int msitesmasked;
         TypeMaskStorage mtypemask;
         int mmergedvaluescount;
         mutable eventticker::EventTicker mticker;
@@ -129,6 +130,7 @@ class PairQuantity : public diffpy::Attributes
 
         // methods
         void updateMaskData();
+        void propagateSiteMasks(int cntsites);
         bool setPairMaskValue(int i, int j, bool mask);
 
         // serialization
@@ -144,6 +146,7 @@ class PairQuantity : public diffpy::Attributes
             ar & mdefaultpairmask;
             ar & minvertpairmask;
             ar & msiteallmask;
+            ar & msitesmasked;
             ar & mtypemask;
             ar & mmergedvaluescount;
             ar & mticker;
-- 
2.43.0


From c27b71f374f2a8524bae5fb09c3d93f3b0fc0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 41/65] fix: return bonds of a single worker as parallel data

---
 src/diffpy/srreal/BondCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 8a7adbc..b1fa0c1 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -190,7 +190,8 @@ string BondCalculator::getParallelData() const
 {
     ostringstream storage(ios::binary);
     diffpy::serialization::oarchive oa(storage, ios::binary);
-    oa << mpopbonds << maddbonds;
+    // serial evaluation has its bonds already merged
+    oa << mpopbonds << (mevaluator->isParallel() ? maddbonds : mbonds);
     return storage.str();
 }
 
-- 
2.43.0


From 61c201067ce7a044cab4b511d0b42f687c3a496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 42/65] fix: no comparison of partial values in parallel
 PQEvaluatorCheck

---
 src/diffpy/srreal/PQEvaluator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index d678876..063b7b5 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -456,6 +456,12 @@ PQEvaluatorType PQEvaluatorCheck::typeint() const
 void PQEvaluatorCheck::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
+    // fast update may assign pairs to other workers than full evaluation,
+    // therefore partial results cannot be compared.
+    if (this->isParallel())
+    {
+        return this->PQEvaluatorBasic::updateValue(pq, stru);
+    }
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
     // compare only complete results
-- 
2.43.0


From 8401866d3fccf9b48f3b6e03c86322a0d79f29f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 43/65] fix: count pairs of all symmetry equivalent sites in
 PairCounter

---
 src/diffpy/srreal/PairCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairCounter.cpp b/src/diffpy/srreal/PairCounter.cpp
index e11c9f9..f5584b0 100644
--- a/src/diffpy/srreal/PairCounter.cpp
+++ b/src/diffpy/srreal/PairCounter.cpp
@@ -34,7 +34,7 @@ PairCounter::PairCounter()
 void PairCounter::addPairContribution(const BaseBondGenerator& bnds,
         int summationscale)
 {
-    mvalue.front() += summationscale / 2.0;
+    mvalue.front() += bnds.multiplicity() * summationscale / 2.0;
 }
 
 // End of file
-- 
2.43.0


From dc135320da3fd582ba3be04a7bcb632fcbc0c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 44/65] fix: rotate Uij of symmetry equivalent atoms in
 lattices of unlike axes

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index c65cce5..35ade29 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -162,6 +162,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     eqsumpos.reserve(this->countSymOps());
     eqduplicity.reserve(this->countSymOps());
     const Lattice& L = this->getLattice();
+    const R3::Vector recnorm(L.ar(), L.br(), L.cr());
     SymOpVector::const_iterator op = msymops.begin();
     Atom a1 = a0;
     R3::Vector dxyz;
@@ -175,8 +176,18 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         if (ieq < 0)
         {
             // a1 is a new symmetry site
-            R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(op->R));
-            a1.uij_cartn = R3::prod(op->R, utmp);
+            // Uij elements are with respect to base vectors scaled by their
+            // reciprocal lengths, which may differ for the mixed directions.
+            R3::Matrix rscaled = op->R;
+            for (int i = 0; i < R3::Ndim; ++i)
+            {
+                for (int j = 0; j < R3::Ndim; ++j)
+                {
+                    rscaled(i, j) *= recnorm[j] / recnorm[i];
+                }
+            }
+            R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(rscaled));
+            a1.uij_cartn = R3::prod(rscaled, utmp);
             eqsites.push_back(a1);
             eqsumpos.push_back(R3::zerovector);
             eqduplicity.push_back(0);
-- 
2.43.0


From 93b66297473bb4030b25e3cc29a4121274fd7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 45/65] fix: refuse lattice base with a zero vector,
 determinant of singular matrices

---
 src/diffpy/srreal/R3linalg.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.cpp b/src/diffpy/srreal/R3linalg.cpp
index 19a70cc..a943cfb 100644
--- a/src/diffpy/srreal/R3linalg.cpp
+++ b/src/diffpy/srreal/R3linalg.cpp
@@ -41,20 +41,11 @@ const Matrix& zeromatrix()
 
 double determinant(const Matrix& A)
 {
-    gsl_matrix* gA = gsl_matrix_alloc(Ndim, Ndim);
-    for (int i = 0; i != Ndim; ++i)
-    {
-        for (int j = 0; j != Ndim; ++j)
-        {
-            gsl_matrix_set(gA, i, j, A(i,j));
-        }
-    }
-    gsl_permutation* gP = gsl_permutation_alloc(Ndim);
-    int signum;
-    gsl_linalg_LU_decomp(gA, gP, &signum);
-    double det = gsl_linalg_LU_det(gA, signum);
-    gsl_permutation_free(gP);
-    gsl_matrix_free(gA);
+    // use cofactors, LU decomposition is undefined for zero pivots
+    const double det =
+        A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) -
+        A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) +
+        A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
     return det;
 }
 
-- 
2.43.0


From 007bdfc610549943b17ad7469af25209efa40936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 46/65] fix: copied PointsInSphere must not share indices with
 its origin

---
 src/diffpy/srreal/PointsInSphere.cpp | 24 +++++++++++-------------
 src/diffpy/srreal/PointsInSphere.hpp |  6 +-----
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 88c24ef..d3ee087 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -89,8 +89,7 @@ LatticeParameters LatticeParameters::reciprocal() const
 PointsInSphere::PointsInSphere(double rmin, double rmax,
         const LatticeParameters& _latpar ) :
             _Rmin(rmin), _Rmax(rmax),
-            latpar(_latpar),
-            _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+            latpar(_latpar)
 {
     init();
     rewind();
@@ -101,8 +100,7 @@ PointsInSphere::PointsInSphere(double rmin, double rmax,
         double _a, double _b, double _c,
         double _alpha, double _beta, double _gamma) :
             _Rmin(rmin), _Rmax(rmax),
-            latpar(_a, _b, _c, _alpha, _beta, _gamma),
-            _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+            latpar(_a, _b, _c, _alpha, _beta, _gamma)
 {
     init();
     rewind();
@@ -116,10 +114,10 @@ void PointsInSphere::rewind()
 {
     mHalfSpan = Rmax()*latpar.ar;
     hi_m = int(ceil(mHalfSpan));
-    this->_m = -hi_m;
+    this->_mno[0] = -hi_m;
     // make indices n, o invalid, reset the neares point
-    this->_n = hi_n = 0;
-    this->_o = hi_o = outside_o = 0;
+    this->_mno[1] = hi_n = 0;
+    this->_mno[2] = hi_o = outside_o = 0;
     n0plane = o0plane = o0line = 0.0;
     // unset excluded zone
     oExclHalfSpan = 0.0;
@@ -189,7 +187,7 @@ double PointsInSphere::r() const
 
 void PointsInSphere::next_m()
 {
-    this->_m += 1;
+    this->_mno[0] += 1;
     if (finished())
     {
         return;
@@ -199,7 +197,7 @@ void PointsInSphere::next_m()
     o0plane = m()*do0dm;
     RplaneSquare = RmaxSquare - pow(m()/latpar.ar,2);
     nHalfSpan = RplaneSquare > 0.0 ? sqrt(RplaneSquare)*b2r : 0.0;
-    this->_n = int(floor(n0plane - nHalfSpan));
+    this->_mno[1] = int(floor(n0plane - nHalfSpan));
     hi_n = int(ceil(n0plane + nHalfSpan));
 }
 
@@ -208,7 +206,7 @@ void PointsInSphere::next_n()
 {
     do
     {
-        this->_n += 1;
+        this->_mno[1] += 1;
         if (n() < hi_n)
         {
             o0line = o0plane + (n()-n0plane)*do0dn;
@@ -217,7 +215,7 @@ void PointsInSphere::next_n()
             // parentheses improve round-off errors around [0,0,0]
             double RExclSquare = (RlineSquare - RmaxSquare) + RminSquare;
             oExclHalfSpan = RExclSquare > 0.0 ? sqrt(RExclSquare)*c1r : 0.0;
-            this->_o = int(floor(o0line - oHalfSpan));
+            this->_mno[2] = int(floor(o0line - oHalfSpan));
             outside_o = int(ceil(o0line + oHalfSpan));
             hi_o = outside_o;
             if (oExclHalfSpan)
@@ -237,7 +235,7 @@ void PointsInSphere::next_o()
 {
     do
     {
-        this->_o += 1;
+        this->_mno[2] += 1;
         if (o() < hi_o)
         {
             return;
@@ -245,7 +243,7 @@ void PointsInSphere::next_o()
         if (hi_o != outside_o)
         {
             hi_o = outside_o;
-            this->_o = int( ceil(o0line+oExclHalfSpan) ) - 1;
+            this->_mno[2] = int( ceil(o0line+oExclHalfSpan) ) - 1;
             continue;
         }
         next_n();
diff --git a/src/diffpy/srreal/PointsInSphere.hpp b/src/diffpy/srreal/PointsInSphere.hpp
index 40451aa..1fa1465 100644
--- a/src/diffpy/srreal/PointsInSphere.hpp
+++ b/src/diffpy/srreal/PointsInSphere.hpp
@@ -122,9 +122,6 @@ class PointsInSphere
         const pointsinsphere::LatticeParameters latpar;
         // output
         int _mno[3];
-        int& _m;
-        int& _n;
-        int& _o;
         // calculated constants set by init()
         double RminSquare, RmaxSquare;
         // 2D reciprocal parameters and cosine in bc plane
@@ -221,8 +218,7 @@ class ReflectionsInDmaxDmin : public ReflectionsInQminQmax
 template <class L>
 PointsInSphere::PointsInSphere(double rmin, double rmax, const L& lat) :
     _Rmin(rmin), _Rmax(rmax),
-    latpar(lat.a(), lat.b(), lat.c(), lat.alpha(), lat.beta(), lat.gamma()),
-    _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+    latpar(lat.a(), lat.b(), lat.c(), lat.alpha(), lat.beta(), lat.gamma())
 {
     init();
     rewind();
-- 
2.43.0


From 7e028ad2081293543701cc00661edff8fe3f4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 47/65] fix: exclude inner lattice points when the lower bound
 hits a lattice point

---
 src/diffpy/srreal/PointsInSphere.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index d3ee087..848667d 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -221,7 +221,7 @@ void PointsInSphere::next_n()
             if (oExclHalfSpan)
             {
                 int hole_o = int(ceil(o0line - oExclHalfSpan));
-                if (fabs(hole_o-o0line) < oExclHalfSpan)    hi_o = hole_o;
+                if (hole_o <= o0line + oExclHalfSpan)    hi_o = hole_o;
             }
             return;
         }
@@ -243,7 +243,7 @@ void PointsInSphere::next_o()
         if (hi_o != outside_o)
         {
             hi_o = outside_o;
-            this->_mno[2] = int( ceil(o0line+oExclHalfSpan) ) - 1;
+            this->_mno[2] = int(floor(o0line + oExclHalfSpan));
             continue;
         }
         next_n();
-- 
2.43.0


From f7df6981e6ed49312579558803914b9676714098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 48/65] fix: sine transform of arrays with nonzero value at
 zero

The value at zero has no sine component, but it added a real constant to
the Fourier coefficients and failed the consistency assertion.
---
 src/diffpy/srreal/PDFUtils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PDFUtils.cpp b/src/diffpy/srreal/PDFUtils.cpp
index 37a50b6..9428de8 100644
--- a/src/diffpy/srreal/PDFUtils.cpp
+++ b/src/diffpy/srreal/PDFUtils.cpp
@@ -60,6 +60,9 @@ QuantityType fftgtof(const QuantityType& g, double rstep, double rmin)
     {
         gpadc[2 * ilo] = *gi;
     }
+    // the point at zero does not contribute to the sine transformation
+    // and it would only add a real constant to the transformed values
+    gpadc[0] = 0.0;
     // copy the odd part of g skipping the first point,
     // because it is periodic image of gpadc[0]
     int ihi = 2 * Npad2 - 1;
-- 
2.43.0


From 43e249c0a3cdb2d9a90c66ed56aaeb640062127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 49/65] fix: keep order of change stamps restored in another
 process

Shifting stamps to the clock of the loading process reordered stamps that
were saved or restored at different clock readings, and it erased stamps
when the clocks differed in their upper counter.  Advance the clock of the
loading process instead.
---
 src/diffpy/EventTicker.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/EventTicker.hpp b/src/diffpy/EventTicker.hpp
index 54d11ef..793e5a3 100644
--- a/src/diffpy/EventTicker.hpp
+++ b/src/diffpy/EventTicker.hpp
@@ -76,11 +76,10 @@ class EventTicker
         {
             value_type ga;
             ar >> mtick >> ga;
-            if (ga > gtick)
-            {
-                if (ga.first != gtick.first)  mtick.first = mtick.second = 0;
-                else  mtick.second += gtick.second - ga.second;
-            }
+            // catch up with the clock of the saving process.  This keeps
+            // the order of stamps saved or restored at different times and
+            // makes any later events newer than the restored stamps.
+            if (ga > gtick)  gtick = ga;
         }
 
         BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From 0b364e20e3229b099b589b677c00d6ad6b578942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 50/65] fix: signed overflow at rollover of the change clock

---
 src/diffpy/EventTicker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/EventTicker.cpp b/src/diffpy/EventTicker.cpp
index 5caf20f..5cef808 100644
--- a/src/diffpy/EventTicker.cpp
+++ b/src/diffpy/EventTicker.cpp
@@ -20,6 +20,8 @@
 *
 *****************************************************************************/
 
+#include <limits>
+
 #include <diffpy/EventTicker.hpp>
 #include <diffpy/serialization.ipp>
 
@@ -39,8 +41,8 @@ EventTicker::EventTicker() : mtick(0, 0)
 
 void EventTicker::click()
 {
-    ++gtick.second;
-    if (0 >= gtick.second)
+    if (gtick.second < std::numeric_limits<long>::max())  ++gtick.second;
+    else
     {
         ++gtick.first;
         gtick.second = 0;
-- 
2.43.0


From 10a5e3f76048adeac3c53d006384a430366a0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 51/65] fix: do not leave scattering table registered when its
 alias is refused

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..e334951 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -39,8 +39,15 @@ bool ScatteringFactorTable::registerThisType() const
 {
     typedef diffpy::HasClassRegistry<ScatteringFactorTable> HCRBase;
     bool rv = this->HCRBase::registerThisType();
-    rv = rv && ScatteringFactorTable::aliasType(
-            this->type(), this->radiationType());
+    try {
+        rv = rv && ScatteringFactorTable::aliasType(
+                this->type(), this->radiationType());
+    }
+    catch (logic_error&) {
+        // do not leave the type registered when its alias is refused
+        ScatteringFactorTable::deregisterType(this->type());
+        throw;
+    }
     return rv;
 }
 
-- 
2.43.0


From 0a6aa4c421c7e411a02605e1555145af4801a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 52/65] fix: setting custom bond valence parameters to their
 current entry

---
 src/diffpy/srreal/BVParametersTable.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 32f2fa9..6558f7d 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -105,8 +105,10 @@ const BVParam& BVParametersTable::lookup(const string& atom0, int valence0,
 
 void BVParametersTable::setCustom(const BVParam& bp)
 {
-    this->resetCustom(bp);
-    mcustomtable.insert(bp);
+    // make a copy in case bp refers to the custom entry that is replaced
+    const BVParam bp1 = bp;
+    this->resetCustom(bp1);
+    mcustomtable.insert(bp1);
 }
 
 
-- 
2.43.0


From 1b00d748a2712c448c061ee157f3e971930c40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 53/65] fix: report failed reading of data files

---
 src/diffpy/srreal/BVParametersTable.cpp    | 1 +
 src/diffpy/srreal/scatteringfactordata.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 6558f7d..98012cf 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -191,6 +191,7 @@ BVParametersTable::getStandardSetOfBVParam() const
             assert(!newset->count(bp));
             newset->insert(bp);
         }
+        ensureFileOK(bvparmfile, !fp.bad());
         the_set = std::move(newset);
     }
     return *the_set;
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index d6212f8..6026545 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -182,6 +182,7 @@ const SetOfWKFormulas& getWKFormulasSet()
             wk.symbol.clear();
         }
     }
+    ensureFileOK(wkfile, !fp.bad());
     the_set = std::move(newset);
     return getWKFormulasSet();
 }
@@ -253,6 +254,7 @@ ElectronNumberStorage& getElectronNumberTable()
                 newtable->insert(ENPair(smbl.str(), z - v));
             }
         }
+        ensureFileOK(ionfile, !fp0.bad());
         const size_t mintablesize = 447;
         if (newtable->size() < mintablesize)
         {
@@ -341,6 +343,7 @@ const NeutronBCStorage& getNeutronBCTable()
             }
         }
     }
+    ensureFileOK(nsffile, !fp.bad());
     // define aliases for neutron, deuterium and tritium
     newtable->insert(BCPair("n", newtable->at("1-n")));
     newtable->insert(BCPair("D", newtable->at("2-H")));
-- 
2.43.0


From 7ca5682a51d1bde172a9dba046aae7d1d784500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 54/65] fix: refuse override scaled from zero scattering factor

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index e334951..c555430 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -16,6 +16,8 @@
 *
 *****************************************************************************/
 
+#include <stdexcept>
+
 #include <diffpy/srreal/ScatteringFactorTable.hpp>
 #include <diffpy/HasClassRegistry.ipp>
 #include <diffpy/validators.hpp>
@@ -85,6 +87,13 @@ void ScatteringFactorTable::setCustomAs(
         double value, double q)
 {
     double fsrc = this->standardLookup(srcsmbl, q);
+    if (0.0 == fsrc)
+    {
+        // for example coherent neutron scattering length of Sm
+        string emsg("Cannot scale zero scattering factor of '");
+        emsg += srcsmbl + "'.";
+        throw invalid_argument(emsg);
+    }
     double scale = value / fsrc;
     CustomDataStorage::mapped_type entry(srcsmbl, scale);
     if (mcustom.count(smbl) && mcustom.at(smbl) == entry)  return;
-- 
2.43.0


From 49ea32475ac3d2789369baa2cf9a361b732f3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 55/65] fix: compare symmetry precision in equality of crystals

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 35ade29..99dcabc 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -289,6 +289,7 @@ bool operator==(
     const PeriodicStructureAdapter& pstru1 = stru1;
     bool rv = (&stru0 == &stru1) || (
         (pstru0 == pstru1) &&
+        (stru0.getSymmetryPrecision() == stru1.getSymmetryPrecision()) &&
         (stru0.msymops == stru1.msymops));
     return rv;
 }
-- 
2.43.0


From 4133cae1c561adf45edc9186bcd689cc611e7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 56/65] fix: save bonds to be merged in BondCalculator

---
 src/diffpy/srreal/BondCalculator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..7a278aa 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -93,6 +93,8 @@ class BondCalculator : public PairQuantity
             using boost::serialization::base_object;
             ar & base_object<PairQuantity>(*this);
             ar & mbonds;
+            ar & maddbonds;
+            ar & mpopbonds;
             ar & mfilter_directions;
             ar & mfilter_degrees;
         }
-- 
2.43.0


From ee741855fe3336f6b7ded6cf3a4d306889743e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 57/65] fix: update initial Q-step of a restored unused
 PDFCalculator

---
 src/diffpy/srreal/PDFCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index d0a96cb..fed8bf1 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -20,6 +20,7 @@
 #include <sstream>
 #include <cmath>
 #include <cassert>
+#include <typeinfo>
 
 #include <diffpy/serialization.ipp>
 #include <diffpy/srreal/PDFCalculator.hpp>
@@ -46,8 +47,11 @@ bool _initialQstepUpdate(const PDFC* pc)
 {
     // Check if we use the initial empty structure and constructor
     // has completed, i.e., the last attribute is available.
+    // Compare types, because a restored calculator has its own empty structure.
+    const StructureAdapter& stru = *(pc->getStructure());
+    const StructureAdapter& emptystru = *emptyStructureAdapter();
     const bool rv =
-        (pc->getStructure() == emptyStructureAdapter()) &&
+        (typeid(stru) == typeid(emptystru)) &&
         pc->hasDoubleAttr("extendedrmax");
     return rv;
 }
-- 
2.43.0


From b3c78b7e8caf6cf71ff203f17c885ce633eaa917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 58/65] fix: update pending pair distance limits before
 checking for changes in DebyePDFCalculator

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 5bc9ecc..772436d 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -86,6 +86,8 @@ DebyePDFCalculator::DebyePDFCalculator() :
 
 eventticker::EventTicker& DebyePDFCalculator::ticker() const
 {
+    // pending update of pair distance limits may change the ticker
+    if (!mrlimits_are_cached)  this->cacheRlimitsData();
     // collect composite tickers for the BaseDebyeSum parent class
     eventticker::EventTicker& tic = this->BaseDebyeSum::ticker();
     assert(&mticker == &tic);
-- 
2.43.0


From ac62ad2badbf01bf637c40cef41e66fbfd3606b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 59/65] fix: do not reuse partial value after failed check
 evaluation

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 063b7b5..a30572b 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -467,6 +467,8 @@ void PQEvaluatorCheck::updateValue(
     // compare only complete results
     pq.finishValue();
     unique_ptr<pqresults> results(create_pqresults(pq));
+    // a partially updated value must not be reused if this throws
+    mvalue_ticker = eventticker::EventTicker();
     this->PQEvaluatorBasic::updateValue(pq, stru);
     pq.finishValue();
     mtypeused = CHECK;
-- 
2.43.0


From 001f9bca001f106266e141a4f7455f4ab15337eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 60/65] fix: flipDiffMean must refuse invalid indices in a
 structure with no atoms

---
 src/diffpy/srreal/OverlapCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index ca07689..21cccd4 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -219,8 +219,10 @@ double OverlapCalculator::flipDiffTotal(int i, int j) const
 
 double OverlapCalculator::flipDiffMean(int i, int j) const
 {
+    // this throws invalid_argument for invalid indices
+    double fdtot = this->flipDiffTotal(i, j);
     double totocc = mstructure->totalOccupancy();
-    double rv = (totocc > 0) ? (this->flipDiffTotal(i, j) / totocc) : 0.0;
+    double rv = (totocc > 0) ? (fdtot / totocc) : 0.0;
     return rv;
 }
 
-- 
2.43.0


From 137f63e5f13539f2655d309209c4cdd0dbda2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:45 +0000
Subject: [PATCH 61/65] fix: index overflow in PointsInSphere for large lower
 bounds

---
 src/diffpy/srreal/PointsInSphere.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 848667d..9effc9f 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -256,6 +256,12 @@ void PointsInSphere::init()
 {
     RminSquare = (_Rmin < 0.0) ? -(_Rmin*_Rmin) : _Rmin*_Rmin;
     RmaxSquare = (_Rmax < 0.0) ? -(_Rmax*_Rmax) : _Rmax*_Rmax;
+    // there are no points when lower bound exceeds the upper one, avoid
+    // integer overflow for index limits of a large excluded zone
+    if (RminSquare > RmaxSquare)
+    {
+        RminSquare = std::min(RminSquare, 4 * std::fabs(RmaxSquare) + 1);
+    }
     dn0dm = latpar.cgr*latpar.br/latpar.ar;
     do0dm = latpar.cbr*latpar.cr/latpar.ar;
     // 2D reciprocal parameters in bc plane
-- 
2.43.0


From cc2137fb16a6a66eea607704d6081f60c18387dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 62/65] fix: integer overflow of grid indices for limits far
 beyond the grid

---
 src/diffpy/srreal/PDFUtils.ipp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/PDFUtils.ipp b/src/diffpy/srreal/PDFUtils.ipp
index 28d62b5..ce19d07 100644
--- a/src/diffpy/srreal/PDFUtils.ipp
+++ b/src/diffpy/srreal/PDFUtils.ipp
@@ -20,6 +20,9 @@
 #ifndef PDFUTILS_IPP_INCLUDED
 #define PDFUTILS_IPP_INCLUDED
 
+#include <algorithm>
+#include <limits>
+
 namespace diffpy {
 namespace srreal {
 
@@ -42,7 +45,9 @@ int pdfutils_qminSteps(const double& qmin, const double& qstep)
 {
     using diffpy::mathutils::eps_eq;
     if (qstep <= 0.0)  return 0;
-    int rv = int(ceil(qmin / qstep));
+    // avoid integer overflow for limits far beyond any Q-grid
+    const int maxsteps = std::numeric_limits<int>::max();
+    int rv = int(ceil(std::min(qmin / qstep, double(maxsteps))));
     if (eps_eq(qmin, (rv - 1) * qstep))  rv -= 1;
     return rv;
 }
@@ -88,7 +93,9 @@ inline
 int pdfutils_rminSteps(const double& rmin, const double& rstep)
 {
     using diffpy::mathutils::eps_eq;
-    int rv = int(ceil(rmin / rstep));
+    // avoid integer overflow for limits far beyond any r-grid
+    const int maxsteps = std::numeric_limits<int>::max();
+    int rv = int(ceil(std::min(rmin / rstep, double(maxsteps))));
     if (eps_eq(rmin, (rv - 1) * rstep))  rv -= 1;
     return rv;
 }
@@ -107,7 +114,9 @@ int pdfutils_rminSteps(const T* pdfc)
 inline
 int pdfutils_rmaxSteps(const double& rmax, const double& rstep)
 {
-    int rv = int(ceil(rmax / rstep));
+    // avoid integer overflow for limits far beyond any r-grid
+    const int maxsteps = std::numeric_limits<int>::max();
+    int rv = int(ceil(std::min(rmax / rstep, double(maxsteps))));
     return rv;
 }
 
-- 
2.43.0


From a6a1a45ad1b0a0c55672f36fd3afcea1deb74f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 63/65] fix: integer overflow of grid index for extremely wide
 peaks

---
 src/diffpy/srreal/PDFCalculator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index fed8bf1..a80900c 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -16,6 +16,8 @@
 *
 *****************************************************************************/
 
+#include <algorithm>
+#include <limits>
 #include <stdexcept>
 #include <sstream>
 #include <cmath>
@@ -649,7 +651,10 @@ int PDFCalculator::countCalcPoints() const
 
 int PDFCalculator::calcIndex(double r) const
 {
-    int rv = int(floor(r / this->getRstep())) - this->rcalcloSteps();
+    // avoid integer overflow for positions far from the grid
+    const double maxindex = numeric_limits<int>::max() / 2;
+    double x = floor(r / this->getRstep()) - this->rcalcloSteps();
+    int rv = int(max(-maxindex, min(x, maxindex)));
     return rv;
 }
 
-- 
2.43.0


From eec4bc014652e33c8cc431e930becc111224f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:47 +0000
Subject: [PATCH 64/65] fix: repeated parallel evaluation of bonds returned
 only differences

---
 src/diffpy/srreal/PQEvaluator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index a30572b..ca3f368 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -190,6 +190,12 @@ void PQEvaluatorOptimized::updateValue(
     {
         return this->updateValueCompletely(pq, stru);
     }
+    // individual pairs in a parallel share cannot be updated, because the
+    // removed and added sites may belong to other shares.
+    if (this->isParallel() && this->getFlag(FIXEDSITEINDEX))
+    {
+        return this->updateValueCompletely(pq, stru);
+    }
     // do not do fast updates if they take more work
     StructureDifference sd = mlast_structure->diff(stru);
     if (!sd.allowsfastupdate())
-- 
2.43.0


From d21060d418455847159de728e954f6e15a027236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 65/65] fix: check evaluation refused Debye sums that agree
 within their precision

---
 src/diffpy/srreal/PQEvaluator.cpp | 35 +++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index ca3f368..625c2e4 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -27,6 +27,7 @@
 #include <diffpy/serialization.ipp>
 #include <diffpy/srreal/PQEvaluator.hpp>
 #include <diffpy/srreal/PairQuantity.hpp>
+#include <diffpy/srreal/BaseDebyeSum.hpp>
 #include <diffpy/srreal/BondCalculator.hpp>
 #include <diffpy/srreal/PDFCalculator.hpp>
 #include <diffpy/srreal/StructureDifference.hpp>
@@ -438,8 +439,42 @@ class pqresults_pdfcalculator : public pqresults
 };
 
 
+class pqresults_debyesum : public pqresults
+{
+    public:
+
+        pqresults_debyesum(const BaseDebyeSum& dbs) :
+            pqresults(dbs),
+            msaved_value(dbs.value())
+        { }
+
+
+        // The cutoff of small pair contributions depends on the anchor site,
+        // which may be different in the fast update.
+        virtual bool compare(const PairQuantity& pq) const
+        {
+            const BaseDebyeSum& dbs = dynamic_cast<const BaseDebyeSum&>(pq);
+            QuantityType::const_iterator smx = max_element(
+                    msaved_value.begin(), msaved_value.end(), cmpfabs);
+            const double releps = max(R3::SQRT_DOUBLE_EPS,
+                    10 * dbs.getDebyePrecision());
+            const double eps = releps *
+                (msaved_value.empty() ? 1.0 : max(fabs(*smx), 1.0));
+            mathutils::EpsilonEqual allclose(eps);
+            return allclose(msaved_value, dbs.value());
+        }
+
+    private:
+
+        // data
+        QuantityType msaved_value;
+};
+
+
 pqresults* create_pqresults(const PairQuantity& pq)
 {
+    const BaseDebyeSum* pdbs = dynamic_cast<const BaseDebyeSum*>(&pq);
+    if (pdbs)  return new pqresults_debyesum(*pdbs);
     const PDFCalculator* ppdf = dynamic_cast<const PDFCalculator*>(&pq);
     if (ppdf)  return new pqresults_pdfcalculator(*ppdf);
     const BondCalculator* pbc = dynamic_cast<const BondCalculator*>(&pq);
-- 
2.43.0

