From cd3cfd39370d8e696cace9598ddf29da9dde66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/38] fix: asind returned arccosine for values without exact
 result

---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From 544db1a639ee608f041925a057210ca4d7cfcb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/38] fix: CroppedGaussianProfile returned NaN at x=0 for
 zero fwhm

---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..41dcf90 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if (fwhm <= 0)  return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From f875c624eaaf445e148dd197c1bcfcb52a2fdbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/38] fix: cone filter dropped bonds aligned with the cone
 axis

---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..4013f3a 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -285,7 +285,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // unit-vector product may slightly exceed 1 due to round-offs
+        double ca = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(ca);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From 9e7179e4a79b9a3beb34b7a1a151f057825c3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/38] fix: BVSCalculator ignored the rmin attribute

---
 src/diffpy/srreal/BVSCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..dcc3651 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -155,6 +155,7 @@ void BVSCalculator::resetValue()
 
 void BVSCalculator::configureBondGenerator(BaseBondGenerator& bnds) const
 {
+    bnds.setRmin(this->getRmin());
     bnds.setRmax(this->getRmaxUsed());
 }
 
-- 
2.43.0


From 2a738d172e3251ff64b57dd050af02b4f93f2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/38] fix: DebyePDFCalculator::setQmax kept stale r-limits
 extended for old Qmax

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..9387159 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -140,6 +140,7 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    if (this->getQmax() != qmax)  mrlimits_are_cached = false;
     this->BaseDebyeSum::setQmax(qmax);
     this->updateQstep();
 }
-- 
2.43.0


From 8ed8cf5637519067658f147d41010f5376ab26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/38] fix: Debye sum used occupancy of the first site for all
 sites of that atom type

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..56a86c5 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -234,19 +234,22 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // scattering factors may depend on both the atom type and occupancy
+    typedef pair<string,double> TypeOccupancy;
+    unordered_map<TypeOccupancy, int, boost::hash<TypeOccupancy> > atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const TypeOccupancy tpocc(mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(tpocc))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(tpocc, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[tpocc];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From 2522c6fd6eea9dd4cecaa2e63246e46a50e65dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 07/38] fix: OverlapCalculator neighbors were duplicated after
 deserialization

---
 src/diffpy/srreal/OverlapCalculator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..caa8446 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -127,6 +127,12 @@ class OverlapCalculator : public PairQuantity
             ar & mneighborids;
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
+            // rebuild neighbor indices on their next use
+            if (Archive::is_loading::value)
+            {
+                mneighborids.clear();
+                mneighborids_cached = false;
+            }
         }
 
 };
-- 
2.43.0


From 317c401a8a7c534c1e1d492d488f0a90ae170009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 08/38] fix: OverlapCalculator kept stale neighbors after
 merging parallel data

---
 src/diffpy/srreal/OverlapCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..bf0b356 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -453,6 +453,8 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    mneighborids.clear();
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 7bbb8194946814155c4771e0feee95fe7553f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 09/38] fix: calculators with CHECK evaluator could not be
 serialized

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..eccb56c 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -472,5 +472,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..0393e5c 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -160,5 +160,6 @@ PQEvaluatorPtr createPQEvaluator(
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From 2ab77b35c483d41d802c65bcaf2d862ac416dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 10/38] fix: serialization lost the type of the last used
 evaluator

---
 src/diffpy/srreal/PQEvaluator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 0393e5c..e8ecad4 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -94,6 +94,7 @@ class PQEvaluatorBasic
             void serialize(Archive& ar, const unsigned int version)
         {
             ar & mconfigflags & mcpuindex & mncpu & mvalue_ticker;
+            if (version >= 1)  ar & mtypeused;
         }
 };
 
@@ -158,6 +159,7 @@ PQEvaluatorPtr createPQEvaluator(
 // Serialization -------------------------------------------------------------
 
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
+BOOST_CLASS_VERSION(diffpy::srreal::PQEvaluatorBasic, 1)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
-- 
2.43.0


From 14e1d9d096e6134f0ab8ccc3faa3447255755824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 11/38] fix: OPTIMIZED evaluator reused partial sums from other
 parallel setup

---
 src/diffpy/srreal/PQEvaluator.cpp | 7 +++++++
 src/diffpy/srreal/PQEvaluator.hpp | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index eccb56c..8fd20cd 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,7 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    if (cpuindex != mcpuindex || ncpu != mncpu)  this->invalidate();
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
@@ -177,6 +178,12 @@ void PQEvaluatorOptimized::validate(PairQuantity& pq) const
 }
 
 
+void PQEvaluatorOptimized::invalidate()
+{
+    mlast_structure.reset();
+}
+
+
 void PQEvaluatorOptimized::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index e8ecad4..31f6555 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -66,6 +66,8 @@ class PQEvaluatorBasic
         PQEvaluatorType typeintused() const;
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
         virtual void validate(PairQuantity&) const;
+        /// discard any cached data used for fast updates
+        virtual void invalidate()  { }
         void setFlag(PQEvaluatorFlag flag, bool value);
         bool getFlag(PQEvaluatorFlag flag) const;
         void setupParallelRun(int cpuindex, int ncpu);
@@ -106,6 +108,7 @@ class PQEvaluatorOptimized : public PQEvaluatorBasic
         // methods
         virtual PQEvaluatorType typeint() const;
         virtual void validate(PairQuantity&) const;
+        virtual void invalidate();
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
 
     private:
-- 
2.43.0


From 91abf2a4a43dc1e8247a2654578615c2ce9ebcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 12/38] fix: OPTIMIZED evaluation was wrong after a direct
 setStructure call

---
 src/diffpy/srreal/PQEvaluator.cpp  | 2 +-
 src/diffpy/srreal/PQEvaluator.hpp  | 8 +++++---
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 8fd20cd..d1dbd5d 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -425,7 +425,7 @@ void PQEvaluatorCheck::updateValue(
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
     unique_ptr<pqresults> results(create_pqresults(pq));
-    this->PQEvaluatorBasic::updateValue(pq, stru);
+    this->updateValueCompletely(pq, stru);
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 31f6555..3d1d2de 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -111,14 +111,16 @@ class PQEvaluatorOptimized : public PQEvaluatorBasic
         virtual void invalidate();
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
 
+    protected:
+
+        // helper method
+        void updateValueCompletely(PairQuantity&, StructureAdapterPtr);
+
     private:
 
         // data
         StructureAdapterPtr mlast_structure;
 
-        // helper method
-        void updateValueCompletely(PairQuantity&, StructureAdapterPtr);
-
         // serialization
         friend class boost::serialization::access;
         template<class Archive>
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..a9cf865 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,6 +68,8 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
+    // value is going to be reset and it cannot be used for fast updates
+    if (mevaluator)  mevaluator->invalidate();
     mstructure = stru.get() ? stru : emptyStructureAdapter();
     mstructure->customPQConfig(this);
     this->updateMaskData();
-- 
2.43.0


From 19395e36aed5b7b3cee3d1976fd0d9ed26442e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 13/38] fix: failed fast update left OPTIMIZED evaluator with
 corrupted value

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index d1dbd5d..c57f22c 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -207,6 +207,8 @@ void PQEvaluatorOptimized::updateValue(
     }
     // Remove contributions from the extra sites in the old structure
     assert(sd.stru0 == mlast_structure);
+    // the value is not valid for fast updates until completed below
+    this->invalidate();
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
-- 
2.43.0


From e406ba5365913834ab7d1e968b996bdf545069df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 14/38] fix: standard bond valence table was empty after failed
 load

---
 src/diffpy/srreal/BVParametersTable.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..a767037 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -167,7 +167,7 @@ BVParametersTable::getStandardSetOfBVParam() const
     static unique_ptr<SetOfBVParam> the_set;
     if (!the_set)
     {
-        the_set.reset(new SetOfBVParam);
+        unique_ptr<SetOfBVParam> bvset(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -186,9 +186,11 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!the_set->count(bp));
-            the_set->insert(bp);
+            assert(!bvset->count(bp));
+            bvset->insert(bp);
         }
+        // everything got loaded, save the table
+        the_set = std::move(bvset);
     }
     return *the_set;
 }
-- 
2.43.0


From f6003a05312cc7efd440708bee16fde6f82c325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 15/38] fix: scattering factor tables were incomplete after
 failed load

---
 src/diffpy/srreal/scatteringfactordata.cpp | 44 ++++++++++++----------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..c52da9d 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -133,7 +133,7 @@ const SetOfWKFormulas& getWKFormulasSet()
     using diffpy::validators::ensureFileOK;
     static unique_ptr<SetOfWKFormulas> the_set;
     if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    unique_ptr<SetOfWKFormulas> wkset(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -172,17 +172,19 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
             }
-            if (the_set->count(wk))
+            if (wkset->count(wk))
             {
                 string emsg = "Duplicate atom symbol \"";
                 emsg += wk.symbol + "\".";
                 throw line.format_error(wkfile, emsg);
             }
-            the_set->insert(wk);
+            wkset->insert(wk);
             wk.symbol.clear();
         }
     }
-    return getWKFormulasSet();
+    // everything got loaded, save the table
+    the_set = std::move(wkset);
+    return *the_set;
 }
 
 
@@ -227,7 +229,7 @@ ElectronNumberStorage& getElectronNumberTable()
     typedef ElectronNumberStorage::value_type ENPair;
     if (!entable)
     {
-        entable.reset(new ElectronNumberStorage);
+        unique_ptr<ElectronNumberStorage> ent(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -244,22 +246,24 @@ ElectronNumberStorage& getElectronNumberTable()
                 throw line.format_error(ionfile,
                         "Expected at least 2 columns for (symbol, Z).");
             }
-            entable->insert(ENPair(element, z));
+            ent->insert(ENPair(element, z));
             for (int v; fpline >> v;)
             {
                 ostringstream smbl;
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
-                entable->insert(ENPair(smbl.str(), z - v));
+                ent->insert(ENPair(smbl.str(), z - v));
             }
         }
         const size_t mintablesize = 447;
-        if (entable->size() < mintablesize)
+        if (ent->size() < mintablesize)
         {
             ostringstream emsg;
             emsg << "Incomplete file.  Expected " << mintablesize <<
-                " items loaded " << entable->size() << ".";
+                " items loaded " << ent->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        // everything got loaded, save the table
+        entable = std::move(ent);
     }
     return *entable;
 }
@@ -275,7 +279,7 @@ const NeutronBCStorage& getNeutronBCTable()
     typedef NeutronBCStorage::value_type BCPair;
     static unique_ptr<NeutronBCStorage> bctable;
     if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    unique_ptr<NeutronBCStorage> bct(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -310,13 +314,13 @@ const NeutronBCStorage& getNeutronBCTable()
         {
             throw line.format_error(nsffile, "Invalid b_c value.");
         }
-        if (bctable->count(smbl))
+        if (bct->count(smbl))
         {
             string emsg = "Duplicate atom symbol \"";
             emsg += smbl + "\".";
             throw line.format_error(nsffile, emsg);
         }
-        bctable->insert(BCPair(smbl, bc));
+        bct->insert(BCPair(smbl, bc));
         // elements are not explicitly included if there is just one isotope
         // or if all isotopes are unstable
         size_t p2 = smbl.find_first_of('-');
@@ -326,24 +330,26 @@ const NeutronBCStorage& getNeutronBCTable()
             // there is just one isotope
             const string& chlf = line.words[1];
             bool addel = (chlf == "100") ||
-                (!bctable->count(el) && *chlf.rbegin() == 'Y');
+                (!bct->count(el) && *chlf.rbegin() == 'Y');
             if (addel)
             {
-                if (bctable->count(el))
+                if (bct->count(el))
                 {
                     string emsg = "Duplicate element entry for \"";
                     emsg += el + "\".";
                     throw line.format_error(nsffile, emsg);;
                 }
-                bctable->insert(BCPair(el, bc));
+                bct->insert(BCPair(el, bc));
             }
         }
     }
     // define aliases for neutron, deuterium and tritium
-    bctable->insert(BCPair("n", bctable->at("1-n")));
-    bctable->insert(BCPair("D", bctable->at("2-H")));
-    bctable->insert(BCPair("T", bctable->at("3-H")));
-    return getNeutronBCTable();
+    bct->insert(BCPair("n", bct->at("1-n")));
+    bct->insert(BCPair("D", bct->at("2-H")));
+    bct->insert(BCPair("T", bct->at("3-H")));
+    // everything got loaded, save the table
+    bctable = std::move(bct);
+    return *bctable;
 }
 
 }   // namespace
-- 
2.43.0


From badff6b6249f71346fe41bbfe3746694bf18136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 16/38] fix: repeated all-atoms pair mask changed pairs without
 a ticker update

---
 src/diffpy/srreal/PairQuantity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index a9cf865..43796af 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -239,7 +239,7 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
-            this->setPairMaskValue(k, l, mask);
+            if (this->setPairMaskValue(k, l, mask))  modified = true;
         }
         if (modified)  mticker.click();
         return;
-- 
2.43.0


From 0c02d48b215f0825491f236a600c28117b159411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 17/38] fix: DebyePDFCalculator::setRstep changed summation
 limits without a ticker update

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 9387159..480dc73 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -194,10 +194,14 @@ void DebyePDFCalculator::setRmax(double rmax)
 
 void DebyePDFCalculator::setRstep(double rstep)
 {
-    // NOTE: do not update ticker here, rstep is only used in the FFT
-    // and not in the Debye summation.
+    // NOTE: the Debye summation does not use rstep directly, but its
+    // extended r-limits are rounded to a multiple of rstep.
     ensureEpsilonPositive("Rstep", rstep);
-    if (mrstep != rstep)  mrlimits_are_cached = false;
+    if (mrstep != rstep)
+    {
+        mticker.click();
+        mrlimits_are_cached = false;
+    }
     mrstep = rstep;
 }
 
-- 
2.43.0


From c3573cd2e45dcb32f74c92e1dbc683cbd5f7966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 18/38] fix: export PairCounter so that it can be archived
 through a PairQuantity handle

---
 src/diffpy/srreal/PairCounter.cpp |  6 ++++++
 src/diffpy/srreal/PairCounter.hpp | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/diffpy/srreal/PairCounter.cpp b/src/diffpy/srreal/PairCounter.cpp
index e11c9f9..b34b190 100644
--- a/src/diffpy/srreal/PairCounter.cpp
+++ b/src/diffpy/srreal/PairCounter.cpp
@@ -16,6 +16,7 @@
 *
 *****************************************************************************/
 
+#include <diffpy/serialization.ipp>
 #include <diffpy/srreal/PairCounter.hpp>
 
 using namespace diffpy::srreal;
@@ -37,4 +38,9 @@ void PairCounter::addPairContribution(const BaseBondGenerator& bnds,
     mvalue.front() += summationscale / 2.0;
 }
 
+// Serialization -------------------------------------------------------------
+
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PairCounter)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PairCounter)
+
 // End of file
diff --git a/src/diffpy/srreal/PairCounter.hpp b/src/diffpy/srreal/PairCounter.hpp
index eef4b92..43d12e9 100644
--- a/src/diffpy/srreal/PairCounter.hpp
+++ b/src/diffpy/srreal/PairCounter.hpp
@@ -39,6 +39,16 @@ class PairCounter : public PairQuantity
         // methods
         virtual void addPairContribution(const BaseBondGenerator&, int);
 
+    private:
+
+        // serialization
+        friend class boost::serialization::access;
+        template<class Archive>
+            void serialize(Archive& ar, const unsigned int version)
+        {
+            ar & boost::serialization::base_object<PairQuantity>(*this);
+        }
+
 };
 
 // Public Template Methods ---------------------------------------------------
@@ -55,4 +65,8 @@ int PairCounter::operator()(const T& stru)
 }   // namespace srreal
 }   // namespace diffpy
 
+// Serialization -------------------------------------------------------------
+
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PairCounter)
+
 #endif  // PAIRCOUNTER_HPP_INCLUDED
-- 
2.43.0


From f31ff5baea98cac493b63c1f73222f433c7a35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 19/38] fix: BondCalculator lost unmerged parallel bonds in
 serialization

---
 src/diffpy/srreal/BondCalculator.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..cb918ee 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -95,6 +95,12 @@ class BondCalculator : public PairQuantity
             ar & mbonds;
             ar & mfilter_directions;
             ar & mfilter_degrees;
+            // bonds that wait for merging of parallel data
+            if (version >= 1)
+            {
+                ar & mpopbonds;
+                ar & maddbonds;
+            }
         }
 
         // methods
@@ -131,5 +137,6 @@ QuantityType BondCalculator::operator()(const T& stru)
 // Serialization -------------------------------------------------------------
 
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::BondCalculator)
+BOOST_CLASS_VERSION(diffpy::srreal::BondCalculator, 1)
 
 #endif  // BONDCALCULATOR_HPP_INCLUDED
-- 
2.43.0


From 3d911e995d768c1e2bb997a507440d2da25aa3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 20/38] fix: conflicting all-atoms masks were applied in hash
 table order

---
 src/diffpy/srreal/PairQuantity.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 43796af..b508ed0 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -18,6 +18,7 @@
 
 #include <algorithm>
 #include <locale>
+#include <map>
 #include <sstream>
 
 #include <diffpy/srreal/PairQuantity.hpp>
@@ -427,8 +428,11 @@ void PairQuantity::updateMaskData()
     // Propagate masks with ALLATOMSINT to all valid indices.
     if (mtypemask.empty())
     {
-        unordered_map<int, bool>::const_iterator ia;
-        for (ia = msiteallmask.begin(); ia != msiteallmask.end(); ++ia)
+        // use fixed order as the masks may disagree for some pairs
+        const map<int, bool> siteallmask(
+                msiteallmask.begin(), msiteallmask.end());
+        map<int, bool>::const_iterator ia;
+        for (ia = siteallmask.begin(); ia != siteallmask.end(); ++ia)
         {
             for (int j = 0; j < cntsites; ++j)
             {
@@ -449,10 +453,13 @@ void PairQuantity::updateMaskData()
         }
         // rebuild minvertpairmask according to mtypemask
         minvertpairmask.clear();
-        TypeMaskStorage::const_iterator tpmsk;
+        // use fixed order as the all-masks may disagree for some pairs
+        typedef map<TypeMaskStorage::key_type, bool> OrderedTypeMask;
+        const OrderedTypeMask typemask(mtypemask.begin(), mtypemask.end());
+        OrderedTypeMask::const_iterator tpmsk;
         // build a list of type masks with all-masks at the begining
         list< pair<string,string> > orderedpairs;
-        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        for (tpmsk = typemask.begin(); tpmsk != typemask.end(); ++tpmsk)
         {
             bool hasall = (ALLATOMSSTR == tpmsk->first.first ||
                     ALLATOMSSTR == tpmsk->first.second);
-- 
2.43.0


From 6a07bed45f3806645a83735c2678f32628f00de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:19 +0000
Subject: [PATCH 21/38] fix: make peak-width attributes reachable from
 BaseDebyeSum

BaseDebyeSum owns a peak-width model, but did not forward attribute visitors
to it, thus getDoubleAttr("delta1") failed while the derived
DebyePDFCalculator and PDFCalculator supported it.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 17 +++++++++++++++++
 src/diffpy/srreal/BaseDebyeSum.hpp |  4 ++++
 2 files changed, 21 insertions(+)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index 56a86c5..138c5e9 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -154,6 +154,23 @@ const double& BaseDebyeSum::getDebyePrecision() const
 
 // Protected Methods ---------------------------------------------------------
 
+// Attributes overloads
+
+void BaseDebyeSum::accept(diffpy::BaseAttributesVisitor& v)
+{
+    this->getPeakWidthModel()->accept(v);
+    // finally call standard accept
+    this->diffpy::Attributes::accept(v);
+}
+
+
+void BaseDebyeSum::accept(diffpy::BaseAttributesVisitor& v) const
+{
+    this->getPeakWidthModel()->accept(v);
+    // finally call standard accept
+    this->diffpy::Attributes::accept(v);
+}
+
 // PairQuantity overloads
 
 void BaseDebyeSum::resetValue()
diff --git a/src/diffpy/srreal/BaseDebyeSum.hpp b/src/diffpy/srreal/BaseDebyeSum.hpp
index 5eaea6f..2d4c3a1 100644
--- a/src/diffpy/srreal/BaseDebyeSum.hpp
+++ b/src/diffpy/srreal/BaseDebyeSum.hpp
@@ -61,6 +61,10 @@ class BaseDebyeSum :
 
     protected:
 
+        // Attributes overload to direct visitors around data structures
+        virtual void accept(diffpy::BaseAttributesVisitor& v);
+        virtual void accept(diffpy::BaseAttributesVisitor& v) const;
+
         // PairQuantity overloads
         virtual void resetValue();
         virtual void addPairContribution(const BaseBondGenerator&, int);
-- 
2.43.0


From b89029cbb864c8cd338314c6f272f9386a13eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 22/38] fix: reset fast PDF updates also when qmax is increased

An increased qmax shrinks the extended r-range, thus sums accumulated for
the previous range contain peaks from beyond the new range and must not be
reused for an incremental update.
---
 src/diffpy/srreal/PDFCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..26d5b54 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -276,7 +276,7 @@ void PDFCalculator::setQmax(double qmax)
 {
     ensureNonNegative("Qmax", qmax);
     double qmax1 = (qmax > 0.0) ? qmax : DOUBLE_MAX;
-    if (qmax1 < mqmax)  mticker.click();
+    if (mqmax != qmax1)  mticker.click();
     mqmax = qmax1;
     if (_initialQstepUpdate(this))  this->resetValue();
 }
-- 
2.43.0


From ee3c969efdaa5f8082128f5a793b4feb2b0d0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 23/38] fix: reset fast updates whenever a type mask gets
 removed

Removal of a type-pair mask that equals the new all-mask may change the
effective mask when the other atom type has a different all-mask.
---
 src/diffpy/srreal/PairQuantity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b508ed0..7283f0b 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -311,7 +311,8 @@ setTypeMask(string smbli, string smblj, bool mask)
                 (sk == tpmsk->first.first || sk == tpmsk->first.second);
             if (eraseitem)
             {
-                if (mask != tpmsk->second)  modified = true;
+                // a pair of types may be also matched by another all-mask
+                modified = true;
                 tpmsk = mtypemask.erase(tpmsk);
             }
             else  ++tpmsk;
-- 
2.43.0


From 946ec5f72a613b1bca6850fd09c53bea6d403d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 24/38] fix: OPTIMIZED evaluation reused values merged from
 other processes

The value after mergeParallelData includes contributions evaluated by other
processes and it must not be used as a base for the next fast update.
---
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 7283f0b..b97e677 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -103,6 +103,8 @@ void PairQuantity::mergeParallelData(const string& pdata, int ncpu)
         const char* emsg = "Number of merged values exceeds NCPU.";
         throw runtime_error(emsg);
     }
+    // merged value must not be used for fast updates
+    mevaluator->invalidate();
     this->executeParallelMerge(pdata);
     ++mmergedvaluescount;
     if (mmergedvaluescount == ncpu)  this->finishValue();
-- 
2.43.0


From 83f053117de5caa6657b4c7b7b4830ed71dbb2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 25/38] fix: BondCalculator must not use parallel bond lists
 for fast updates

---
 src/diffpy/srreal/BondCalculator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 4013f3a..9fad844 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -237,7 +237,12 @@ void BondCalculator::finishValue()
     assert(mpopbonds.size() <= mbonds.size());
     sort(mpopbonds.begin(), mpopbonds.end(), BondOp::compare);
     sort(maddbonds.begin(), maddbonds.end(), BondOp::compare);
-    if (mevaluator->isParallel())  return;
+    if (mevaluator->isParallel())
+    {
+        // partial bond lists must not be used for fast updates
+        mevaluator->invalidate();
+        return;
+    }
     BondDataStorage::iterator last;
     last = set_difference(mbonds.begin(), mbonds.end(),
             mpopbonds.begin(), mpopbonds.end(),
-- 
2.43.0


From a170968566f2b4c8ade91bb74ee210fb0e56b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 26/38] fix: keep Lattice unchanged when setLatBase rejects the
 vectors

---
 src/diffpy/srreal/Lattice.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..1cf2a88 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,11 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    R3::Matrix base0;
+    R3::row(base0, 0) = va0;
+    R3::row(base0, 1) = vb0;
+    R3::row(base0, 2) = vc0;
+    double detbase = R3::determinant(base0);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,6 +119,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = base0;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From da0611a1fcb4bb42ae0c3c7e678d882716d2f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 27/38] fix: reject zero Qmax in DebyePDFCalculator before it
 is set

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 480dc73..f0dd030 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -140,6 +140,9 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    ensureNonNegative("Qmax", qmax);
+    // Qstep is adjusted to a quarter of Qmax or less and it must be positive.
+    ensureEpsilonPositive("Qstep", qmax / 4);
     if (this->getQmax() != qmax)  mrlimits_are_cached = false;
     this->BaseDebyeSum::setQmax(qmax);
     this->updateQstep();
-- 
2.43.0


From d161b8edabceb94e31b25ffd79c254bde73a2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 28/38] fix: rebuild symmetry positions after changes of atoms
 or lattice

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 12 ++++++++----
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..8dd1d89 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -69,7 +69,7 @@ BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 
 int CrystalStructureAdapter::siteMultiplicity(int idx) const
 {
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     int rv = msymatoms[idx].size();
     return rv;
 }
@@ -147,7 +147,7 @@ const CrystalStructureAdapter::AtomVector&
 CrystalStructureAdapter::getEquivalentAtoms(int idx) const
 {
     assert(0 <= idx && idx < this->countSites());
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     return msymatoms[idx];
 }
 
@@ -225,6 +225,8 @@ void CrystalStructureAdapter::updateSymmetryPositions() const
         iterator ai = saii->begin();
         for (; ai != saii->end(); ++ai)  this->toCartesian(*ai);
     }
+    msymsources.assign(this->begin(), this->end());
+    msymlattice = this->getLattice();
     msymmetry_cached = true;
 }
 
@@ -248,10 +250,12 @@ int CrystalStructureAdapter::findEqualPosition(
     return -1;
 }
 
-bool CrystalStructureAdapter::isSymmetryCached() const
+bool CrystalStructureAdapter::isSymmetryCached(int idx) const
 {
     msymmetry_cached = msymmetry_cached &&
-        (int(msymatoms.size()) == this->countSites());
+        (int(msymatoms.size()) == this->countSites()) &&
+        (msymsources[idx] == (*this)[idx]) &&
+        (msymlattice == this->getLattice());
     return msymmetry_cached;
 }
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..8ae3eda 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -101,14 +101,15 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
         double msymmetry_precision;
         mutable std::vector<AtomVector> msymatoms;
         mutable bool msymmetry_cached;
+        /// asymmetric unit and lattice that were used to build msymatoms
+        mutable AtomVector msymsources;
+        mutable Lattice msymlattice;
 
         // symmetry helpers
         /// return index of AtomVector atom at an equal position or -1
         int findEqualPosition(const AtomVector&, const Atom&) const;
-        /// fuzzy check if symmetry positions are up to date
-        /// this only detects addition or removal of atom in the asymmetric
-        /// unit, but does not check for changes in atom positions.
-        bool isSymmetryCached() const;
+        /// check if symmetry positions are up to date for the given site
+        bool isSymmetryCached(int idx) const;
 
         // comparison
         friend bool operator==(
@@ -124,6 +125,13 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
             ar & msymmetry_precision;
             ar & msymatoms;
             ar & msymmetry_cached;
+            // rebuild symmetry positions on their next use
+            if (Archive::is_loading::value)
+            {
+                msymmetry_cached = false;
+                msymsources.clear();
+                msymlattice = Lattice();
+            }
         }
 
 };
-- 
2.43.0


From 4e19b658c059d723fc2aa0652c3a6d1451eafad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 29/38] fix: report unreadable reference data instead of
 keeping partial tables

---
 src/diffpy/srreal/BVParametersTable.cpp    | 10 ++++++++++
 src/diffpy/srreal/scatteringfactordata.cpp | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index a767037..ac4ac0c 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -178,6 +178,11 @@ BVParametersTable::getStandardSetOfBVParam() const
         {
             if (lnrd.wcount() && lnrd.words[0] == "_valence_param_B")  break;
         }
+        if (!fp)
+        {
+            throw lnrd.format_error(bvparmfile,
+                    "Missing \"_valence_param_B\" in the header.");
+        }
         // skip to an empty line
         while (fp >> lnrd && !lnrd.isblank())  { }
         // load data lines skipping the empty or commented entries
@@ -189,6 +194,11 @@ BVParametersTable::getStandardSetOfBVParam() const
             assert(!bvset->count(bp));
             bvset->insert(bp);
         }
+        if (!fp.eof())
+        {
+            throw lnrd.format_error(bvparmfile,
+                    "Error while reading the file.");
+        }
         // everything got loaded, save the table
         the_set = std::move(bvset);
     }
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index c52da9d..b3bf0e3 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -182,6 +182,10 @@ const SetOfWKFormulas& getWKFormulasSet()
             wk.symbol.clear();
         }
     }
+    if (!fp.eof())
+    {
+        throw line.format_error(wkfile, "Error while reading the file.");
+    }
     // everything got loaded, save the table
     the_set = std::move(wkset);
     return *the_set;
@@ -254,6 +258,10 @@ ElectronNumberStorage& getElectronNumberTable()
                 ent->insert(ENPair(smbl.str(), z - v));
             }
         }
+        if (!fp0.eof())
+        {
+            throw line.format_error(ionfile, "Error while reading the file.");
+        }
         const size_t mintablesize = 447;
         if (ent->size() < mintablesize)
         {
@@ -343,6 +351,10 @@ const NeutronBCStorage& getNeutronBCTable()
             }
         }
     }
+    if (!fp.eof())
+    {
+        throw line.format_error(nsffile, "Error while reading the file.");
+    }
     // define aliases for neutron, deuterium and tritium
     bct->insert(BCPair("n", bct->at("1-n")));
     bct->insert(BCPair("D", bct->at("2-H")));
-- 
2.43.0


From 8a33a63b357a208136ebd807e5d21659ccbe4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 30/38] fix: clear data of LineReader when there is no line to
 read

---
 src/diffpy/runtimepath.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/runtimepath.cpp b/src/diffpy/runtimepath.cpp
index 0957e74..20fd56a 100644
--- a/src/diffpy/runtimepath.cpp
+++ b/src/diffpy/runtimepath.cpp
@@ -186,6 +186,7 @@ istream& operator>> (istream& fp, LineReader& line)
 {
     getline(fp, line.line);
     if (fp)  line.lineno++;
+    else  line.line.clear();
     istringstream fpline(line.line);
     line.words.clear();
     string w;
-- 
2.43.0


From ddb211d298131f461d4b1eb31bfb0f07c469e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 31/38] fix: reject trailing characters in atom radius

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index 20995f6..561727d 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -74,7 +74,7 @@ void AtomRadiiTable::fromString(const string& s)
         string smbl = w.substr(0, p);
         double value;
         istringstream ssv(w.substr(p + 1));
-        if (!(ssv >> value))
+        if (!(ssv >> value) || !ssv.eof())
         {
             ostringstream emsg;
             emsg << "Invalid floating point number in '" << w << "'.";
-- 
2.43.0


From 2370064bfd66f9151b51e4176a7fb2008656a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 32/38] fix: reject invalid ion valences in reference data

---
 src/diffpy/srreal/scatteringfactordata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index b3bf0e3..fd606b3 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -257,6 +257,10 @@ ElectronNumberStorage& getElectronNumberTable()
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
                 ent->insert(ENPair(smbl.str(), z - v));
             }
+            if (!fpline.eof())
+            {
+                throw line.format_error(ionfile, "Invalid ion valence.");
+            }
         }
         if (!fp0.eof())
         {
-- 
2.43.0


From 97638b4dcc9a8dd1d9466ad738a9a5086acfd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:53 +0000
Subject: [PATCH 33/38] fix: structures of different types are not compared by
 atoms alone

---
 src/diffpy/srreal/AtomicStructureAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..7f9b0a5 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -19,6 +19,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <typeinfo>
 #include <boost/functional/hash.hpp>
 
 #include <diffpy/serialization.ipp>
@@ -173,6 +174,8 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // atoms alone do not define structures of different types
+    if (typeid(*this) != typeid(*pother))  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
-- 
2.43.0


From ffcfe73dfc0dac39e2574218252484a9fab1c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 34/38] fix: equality of crystal structures respects symmetry
 precision

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 8dd1d89..cbf6472 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -269,6 +269,7 @@ bool operator==(
     const PeriodicStructureAdapter& pstru1 = stru1;
     bool rv = (&stru0 == &stru1) || (
         (pstru0 == pstru1) &&
+        (stru0.msymmetry_precision == stru1.msymmetry_precision) &&
         (stru0.msymops == stru1.msymops));
     return rv;
 }
-- 
2.43.0


From c7c207588e255f7d5797d7cf0afcdc1c83c64c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 35/38] fix: keep Lattice angles finite for (anti)parallel
 vectors

The cosine calculated from the dot product can exceed 1 by round-off and
angledeg, anglerad then returned NaN.
---
 src/diffpy/srreal/Lattice.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.hpp b/src/diffpy/srreal/Lattice.hpp
index 4e9146c..6c9ab41 100644
--- a/src/diffpy/srreal/Lattice.hpp
+++ b/src/diffpy/srreal/Lattice.hpp
@@ -20,6 +20,8 @@
 #ifndef LATTICE_HPP_INCLUDED
 #define LATTICE_HPP_INCLUDED
 
+#include <algorithm>
+
 #include <boost/serialization/base_object.hpp>
 #include <diffpy/mathutils.hpp>
 #include <diffpy/srreal/R3linalg.hpp>
@@ -502,7 +504,8 @@ double Lattice::angledeg(const V& u, const V& v) const
 {
     using diffpy::mathutils::acosd;
     double ca = dot(u, v)/(norm(u) * norm(v));
-    return acosd(ca);
+    // avoid NaN when round-off takes cosine out of [-1, 1]
+    return acosd(std::max(-1.0, std::min(1.0, ca)));
 }
 
 
@@ -510,7 +513,7 @@ template <class V>
 double Lattice::anglerad(const V& u, const V& v) const
 {
     double ca = dot(u, v)/(norm(u) * norm(v));
-    return acos(ca);
+    return acos(std::max(-1.0, std::min(1.0, ca)));
 }
 
 
-- 
2.43.0


From 4674d78df2d0cfd420350e89d5910bcd4b4e0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:43 +0000
Subject: [PATCH 36/38] fix: reject custom scattering factor scaled from a zero
 source

ScatteringFactorTable::setCustomAs stored an infinite or NaN scale when the
source symbol had zero scattering at the given Q, e.g., H1+ electron number.
---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..15adc34 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -16,6 +16,8 @@
 *
 *****************************************************************************/
 
+#include <stdexcept>
+
 #include <diffpy/srreal/ScatteringFactorTable.hpp>
 #include <diffpy/HasClassRegistry.ipp>
 #include <diffpy/validators.hpp>
@@ -78,6 +80,11 @@ void ScatteringFactorTable::setCustomAs(
         double value, double q)
 {
     double fsrc = this->standardLookup(srcsmbl, q);
+    if (fsrc == 0.0)
+    {
+        const char* emsg = "Cannot rescale source with zero scattering factor.";
+        throw invalid_argument(emsg);
+    }
     double scale = value / fsrc;
     CustomDataStorage::mapped_type entry(srcsmbl, scale);
     if (mcustom.count(smbl) && mcustom.at(smbl) == entry)  return;
-- 
2.43.0


From 4b5a76eb57974719d1411bc4a4e0ece3cbffc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:29 +0000
Subject: [PATCH 37/38] fix: allow fast updates of an empty PDF sum

PDFCalculator::restorePartialValue asserted that the stashed and the
current value have elements.  Both are empty when rmin is not smaller
than rmax, so debug builds aborted in the second evaluation.
---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 26d5b54..74dd6f7 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -546,8 +546,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From 394b69157af24577cb69ac9027748322c35e7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:51 +0000
Subject: [PATCH 38/38] fix: reject a bond valence table that ends within its
 header

---
 src/diffpy/srreal/BVParametersTable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index ac4ac0c..b54c4a9 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -185,6 +185,11 @@ BVParametersTable::getStandardSetOfBVParam() const
         }
         // skip to an empty line
         while (fp >> lnrd && !lnrd.isblank())  { }
+        if (!fp)
+        {
+            throw lnrd.format_error(bvparmfile,
+                    "Missing empty line after the header.");
+        }
         // load data lines skipping the empty or commented entries
         while (fp >> lnrd)
         {
-- 
2.43.0

