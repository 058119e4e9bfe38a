From fd60b4facbdaca10c9986aa3c3040aaf9e281d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 001/153] fix: set the data pointer when an array is copied as
 another array type

---
 DMI/src/NumArray.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 62aa43c..03aa32e 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -241,7 +241,6 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
       Header *hdr = itsData().pdata<Header>();
       BObj::fillHeader(hdr,1,realtype);
     }
-    else
     itsArrayData = const_cast<char*>(itsData->cdata()) + itsDataOffset;
     // strings need to be initialized & copied over explicitly
     if( itsScaType == Tpstring )
-- 
2.43.0


From a77d2ab3273120d1f2d97c768f22ac7330261ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 002/153] fix: arg() of a real Vells read past each element

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..e8ae4fe 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -602,7 +602,7 @@ inline T UNARY_MINUS_impl (T x)
 
 inline double arg (const double x)
 {
-    return std::arg(*reinterpret_cast<const std::complex<double>*>(&x));
+    return std::arg(std::complex<double>(x));
 }
 #else
 
-- 
2.43.0


From c585d14c0f8b997e39de540345189538c355647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 003/153] fix: max() of negative values returned the smallest
 positive double

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index e8ae4fe..e5ff8df 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -843,7 +843,7 @@ inline dcomplex mkconst (int x,dcomplex *)
 defineReductionFuncTemplate(min,std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(min,"min() can only be applied to a real Meq::Vells");
 #define Do_max(y,x) y=max(x,y)
-defineReductionFuncTemplate(max,std::numeric_limits<TY>::min());
+defineReductionFuncTemplate(max,-std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(max,"max() can only be applied to a real Meq::Vells");
 
 Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_min_lut[VELLS_LUT_SIZE] =
-- 
2.43.0


From b7d50c27bd3f2480455950dbe1f83d99c0067667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 004/153] fix: operator ~ on flags worked on an uninitialised
 array instead of its operand

---
 MEQ/src/Vells.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index e5ff8df..7cd0909 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -692,8 +692,9 @@ DoForAllUnaryOperators(implementUnaryOperator,);
   Meq::Vells Meq::Vells::operator OPER () const \
   { \
     Vells result(*this,VF_FLAGTYPE,"operator "#OPER); \
-    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++ ) \
-       (*ptr) = OPER (*ptr); \
+    const FT *px = begin<FT>(); \
+    for( FT *py = result.begin<FT>(); py != result.end<FT>(); px++,py++ ) \
+       (*py) = OPER (*px); \
     return result; \
   }
 
-- 
2.43.0


From 6c07238fa1dcf179fd4d82bb948a8dc783c2e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 005/153] fix: posdiff() wrapped by 2/pi instead of 2*pi

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 7cd0909..a769372 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -1213,7 +1213,7 @@ Meq::Vells::BinaryOperPtr Meq::Vells::binfunc_polar_lut[VELLS_LUT_SIZE][VELLS_LU
 static inline double posdiff (double x,double y)
 {
   double diff = x-y;
-  return diff < -M_PI ? diff + M_2_PI : ( diff > M_PI ? diff - M_2_PI : diff );
+  return diff < -M_PI ? diff + 2*M_PI : ( diff > M_PI ? diff - 2*M_PI : diff );
 }
 defineBinaryFuncTemplate(posdiff,posdiff,);
 defineErrorFunc2(error_binary_posdiff,"posdiff() can only be applied to two real Meq::Vells");
-- 
2.43.0


From dfa9daeedc4f492829dd8316326c1bd6c36b426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 006/153] fix: sum() and product() counted twice the axes that
 only the flags span

---
 MEQ/src/Vells.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index a769372..25a1940 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -876,12 +876,25 @@ Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_mean_lut[VELLS_LUT_SIZE] =
 // fact that a Vells constant along axis #i will only contain one
 // actual value to represent Ni points.
 // The renormalization term is (N points in full shape)/(N actual points in Vells)
+
+// returns this term. The reduction above already expands axes that are
+// collapsed in the data but not in the flags, so these are not counted
+static int renormTerm (const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
+{
+  const bool hasflags = flagmask && x.hasDataFlags();
+  int renorm = 1;
+  for( uint i=0; i<shape.size(); i++ )
+    if( x.extent(i) == 1 && !( hasflags && x.dataFlags().extent(i) > 1 ) )
+      renorm *= shape[i];
+  return renorm;
+}
+
 template<class TY,class TX>
 static void implement_sum (Meq::Vells &y,const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
 {
   int nel;
   TY y0 = implement_sum_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormTerm(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = y0 * mkconst(renorm,&y0);
 }
 
@@ -892,7 +905,7 @@ static void implement_product (Meq::Vells &y,const Meq::Vells &x,const Meq::Vell
 {
   int nel;
   TY y0 = implement_product_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormTerm(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = pow(y0,renorm);
 }
 
-- 
2.43.0


From 5f274d297b346abd0850fd067c399bed4672d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 007/153] fix: a plane with failed children was counted as
 missing, not as failed

---
 MEQ/src/Function.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..57449d8 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -197,7 +197,8 @@ int Function::getResult (Result::Ref &resref,
     // Otherwise, we have a case of some values present, and some missing. This is only supported by some node classes:
     // these will have called allowMissingData() in their constructor. If this is not supported, then we return no
     // data as well.
-    if( nmissing )
+    // (fails take precedence over missing values)
+    if( nmissing && !vellset.isFail() )
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-- 
2.43.0


From 00abbe0dc04cb3347949c827f5405e9acc1afbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 008/153] fix: adding a fail to a VellSet dropped the fails
 added before

---
 MEQ/src/VellSet.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index b22f9d7..33f1fe0 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -589,7 +589,8 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
 void VellSet::addFail (const ObjRef &ref)
 {
   Thread::Mutex::Lock lock(mutex());
-  clear();
+  if( !is_fail_ ) // keep fails that have already been added
+    clear();
   is_fail_ = true;
   // clear out the DR
   Record::removeField(FValue,true,0);
-- 
2.43.0


From 5b179c901928da8265551c0416d229ea16e1a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 009/153] fix: a value set into a VellSet kept flags that the
 VellSet does not have

---
 MEQ/src/VellSet.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 33f1fe0..2bf835b 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -567,6 +567,8 @@ void VellSet::setValue (Vells::Ref &ref,int flags)
   // attach flags if we have them
   if( hasDataFlags() )
     ref().setDataFlags(dataFlags());
+  else if( ref->hasDataFlags() ) // get rid of flags if we have none
+    ref().clearDataFlags();
   Field & field = Record::addField(FValue,ref.ref_cast<BObj>(),flags|DMI::REPLACE|Record::PROTECT);
   pvalue_ = &( field.ref().ref_cast<Vells>() );
 }
@@ -582,6 +584,8 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
   // attach flags if we have them
   if( hasDataFlags() )
     ref().setDataFlags(dataFlags());
+  else if( ref->hasDataFlags() ) // get rid of flags if we have none
+    ref().clearDataFlags();
   ps.pertval_vec->dewr().put(i,ref,flags);
 }
 
-- 
2.43.0


From 49e086dabf4dfd1a4eba0f97abc11114e5521e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 010/153] fix: Max and Min across three or more children took
 values flagged in the first ones

---
 MeqNodes/src/Max.cc | 24 ++++++++++++++++++++----
 MeqNodes/src/Min.cc | 24 ++++++++++++++++++++----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/MeqNodes/src/Max.cc b/MeqNodes/src/Max.cc
index c080cab..774626c 100644
--- a/MeqNodes/src/Max.cc
+++ b/MeqNodes/src/Max.cc
@@ -46,19 +46,35 @@ Vells Max::evaluate (const Request&,const LoShape &,
     else                      // reduce to single value
       return max(*(values[0]),flagmask_[0]);
   }
-  else // else take mean across all Vells
-  // NB: BUG! flags not treated properly here
+  else // else take max across all Vells
   {
     bool has_res = false;
     Vells res;
+    VellsFlagType resmask = 0;  // flags of res to be considered
     for( uint i=0; i<values.size(); i++ )
       if( values[i] )
       {
+        const Vells &val = *values[i];
         if( has_res )
-          res = max(res,*values[i],flagmask_[0],flagmask_[i]);
+        {
+          Vells res1 = max(res,val,resmask,flagmask_[i]);
+          // the result so far remains flagged only where both terms are flagged
+          if( resmask && res.hasDataFlags() && flagmask_[i] && val.hasDataFlags() )
+          {
+            Vells::Ref flags(new Vells(
+                (res.dataFlags()&resmask).whereEq(VellsFlagType(0),0,1) &
+                (val.dataFlags()&flagmask_[i]).whereEq(VellsFlagType(0),0,1)));
+            res1.setDataFlags(flags);
+          }
+          else
+            res1.clearDataFlags();
+          res = res1;
+          resmask = 1;
+        }
         else
         {
-          res = *values[i]; 
+          res = val;
+          resmask = flagmask_[i];
           has_res = true;
         }
       }
diff --git a/MeqNodes/src/Min.cc b/MeqNodes/src/Min.cc
index b3ad8e1..d0b9c43 100644
--- a/MeqNodes/src/Min.cc
+++ b/MeqNodes/src/Min.cc
@@ -46,19 +46,35 @@ Vells Min::evaluate (const Request&,const LoShape &,
     else                      // reduce to single value
       return min(*(values[0]),flagmask_[0]);
   }
-  else // else take mean across all Vells
-  // NB: BUG! flags not treated properly here
+  else // else take min across all Vells
   {
     bool has_res = false;
     Vells res;
+    VellsFlagType resmask = 0;  // flags of res to be considered
     for( uint i=0; i<values.size(); i++ )
       if( values[i] )
       {
+        const Vells &val = *values[i];
         if( has_res )
-          res = min(res,*values[i],flagmask_[0],flagmask_[i]);
+        {
+          Vells res1 = min(res,val,resmask,flagmask_[i]);
+          // the result so far remains flagged only where both terms are flagged
+          if( resmask && res.hasDataFlags() && flagmask_[i] && val.hasDataFlags() )
+          {
+            Vells::Ref flags(new Vells(
+                (res.dataFlags()&resmask).whereEq(VellsFlagType(0),0,1) &
+                (val.dataFlags()&flagmask_[i]).whereEq(VellsFlagType(0),0,1)));
+            res1.setDataFlags(flags);
+          }
+          else
+            res1.clearDataFlags();
+          res = res1;
+          resmask = 1;
+        }
         else
         {
-          res = *values[i]; 
+          res = val;
+          resmask = flagmask_[i];
           has_res = true;
         }
       }
-- 
2.43.0


From 2cc84fc1d6e88e165fb2664bd0b21a158826b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 011/153] fix: replaceFlaggedValues() refused flags with
 trailing axes of extent 1

---
 MEQ/src/Vells.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.h b/MEQ/src/Vells.h
index 2a8bc02..9fa2949 100644
--- a/MEQ/src/Vells.h
+++ b/MEQ/src/Vells.h
@@ -511,7 +511,8 @@ public:
     shapes[0] = &(shape());
     shapes[1] = &(flag.shape());
     computeStrides(outshape,strides,2,shapes,"Vells::replaceFlaggedValues");
-    FailWhen(shape()!=outshape,"Vells::replaceFlaggedValues: flags have more axes than this Vells");
+    // (the flags may have trailing axes of extent 1)
+    FailWhen(outshape.product()!=nelements(),"Vells::replaceFlaggedValues: flags have more axes than this Vells");
     DimCounter counter(outshape);
     T* iter = begin<T>();
     ConstStridedIterator<VellsFlagType> flagiter(flag,strides[1]);
-- 
2.43.0


From ab534215c5ebf55e50c6ce32c8362ec7da80e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 012/153] fix: Mean across several children included flagged
 points

---
 MeqNodes/src/Mean.cc | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/MeqNodes/src/Mean.cc b/MeqNodes/src/Mean.cc
index 447edca..c646609 100644
--- a/MeqNodes/src/Mean.cc
+++ b/MeqNodes/src/Mean.cc
@@ -47,18 +47,37 @@ Vells Mean::evaluate (const Request&,const LoShape &shape,
       return mean(*(values[0]),flagmask_[0]);
   }
   else // else take mean across all Vells
-  // NB: BUG! flags not treated properly here
   {
     Vells res;
-    int ntot = 0;
+    Vells ntot;   // number of unflagged values at each point
     for( uint i=0; i<values.size(); i++ )
       if( values[i] )
       {
-        res += *values[i];
-        ntot++;
+        const Vells &val = *values[i];
+        if( flagmask_[i] && val.hasDataFlags() )
+        {
+          // expand to the shape of the flags, then leave out flagged points
+          const Vells zero(0.,val.flagShape(),true);
+          Vells vals = val + zero;
+          Vells count = Vells(1.,vals.shape(),true);
+          if( vals.isReal() )
+            vals.replaceFlaggedValues(val.dataFlags(),0.,flagmask_[i]);
+          else
+            vals.replaceFlaggedValues(val.dataFlags(),dcomplex(0.,0.),flagmask_[i]);
+          count.replaceFlaggedValues(val.dataFlags(),0.,flagmask_[i]);
+          res += vals;
+          ntot += count;
+        }
+        else
+        {
+          res += val;
+          ntot += Vells(1.);
+        }
       }
-    if( ntot )
-      res /= ntot;
+    // fully flagged points yield 0
+    ntot.replaceFlaggedValues(ntot.whereEq(0.),1.);
+    res /= ntot;
+    return res;
     return res;
   }
 }
-- 
2.43.0


From 568c10ce60737d96ef42e1130af223717ebac80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 013/153] fix: ReplaceFlaggedValues failed when no child had
 flags

---
 MeqNodes/src/ReplaceFlaggedValues.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReplaceFlaggedValues.cc b/MeqNodes/src/ReplaceFlaggedValues.cc
index cd9bf98..ebb3d6f 100644
--- a/MeqNodes/src/ReplaceFlaggedValues.cc
+++ b/MeqNodes/src/ReplaceFlaggedValues.cc
@@ -65,7 +65,7 @@ Vells ReplaceFlaggedValues::evaluate (const Request&,const LoShape & inshape,
 		     const vector<const Vells*>& values)
 {
   Vells val = *(values[0]);
-  if( flags_ )
+  if( flags_.valid() )
   {
     if( val.isReal() )
       val.replaceFlaggedValues(*flags_,creal(value_));
-- 
2.43.0


From fa383b375d55369886786e26a3766d2c2538829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 014/153] fix: Stokes crashed on a child without cells or with
 fewer than four planes

---
 MeqNodes/src/Stokes.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/Stokes.cc b/MeqNodes/src/Stokes.cc
index 5b4637e..04c2761 100644
--- a/MeqNodes/src/Stokes.cc
+++ b/MeqNodes/src/Stokes.cc
@@ -55,7 +55,7 @@ namespace Meq {
     // If QUV is 0, returns scalar I
 
     const Result &tempres = childres.at(0);
-    const Cells& cells = childres.at(0)->cells();
+    FailWhen(tempres.numVellSets()!=4,"child result must have four planes: I, Q, U and V");
 
     const VellSet &vsI = tempres.vellSet(0);
     const VellSet &vsQ = tempres.vellSet(1);
@@ -115,7 +115,8 @@ namespace Meq {
       vs2.setValue(vellsYX);
       vs3.setValue(vellsYY);
     }
-    resref().setCells(cells);
+    if( tempres.hasCells() )
+      resref().setCells(tempres.cells());
     
     return 0;
     
-- 
2.43.0


From 9d8ebc18af2ee1c39733d00809a83920babbbbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 015/153] fix: children with different numbers of perturbation
 sets were read out of bounds

---
 MEQ/src/Function.cc            | 3 ++-
 MEQ/src/TensorFunction.cc      | 3 ++-
 MeqNodes/src/MatrixInvert22.cc | 3 ++-
 MeqNodes/src/MatrixMultiply.cc | 6 ++++--
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 57449d8..0259ad1 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -251,7 +251,8 @@ int Function::getResult (Result::Ref &resref,
             int inx = vs.isDefined(spids[j],indices[ich]);
             if( inx >= 0 )
             {
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              FailWhen(vs.numPertSets()!=npertsets,"number of perturbation sets does not match between child results");
+              for( int ipert=0; ipert<npertsets; ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
 //                childpvv_lock[ipert][ich].relock(pvv.mutex());
diff --git a/MEQ/src/TensorFunction.cc b/MEQ/src/TensorFunction.cc
index 589e8d7..63c9aab 100644
--- a/MEQ/src/TensorFunction.cc
+++ b/MEQ/src/TensorFunction.cc
@@ -206,7 +206,8 @@ void TensorFunction::computeTensorResult (Result::Ref &resref,
         int inx = vs.isDefined(spids[ispid],index_vector_[ichild][ivs]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          FailWhen(vs.numPertSets()!=npertsets,"number of perturbation sets does not match between child results");
+          for( int ipert=0; ipert<npertsets; ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_vectors_[ipert][ichild][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 6ebeb11..aefa621 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -196,7 +196,8 @@ int MatrixInvert22::getResult (Result::Ref &resref,
             if( inx >= 0 )
             {
               changed[ivs] = true;
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              FailWhen(vs.numPertSets()!=npertsets,"number of perturbation sets does not match between child results");
+              for( int ipert=0; ipert<npertsets; ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                 pert_values[ipert][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 49e643d..fb31714 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -180,7 +180,8 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
         int inx = vs.isDefined(spids[ispid],indices[ich]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          FailWhen(vs.numPertSets()!=npertsets,"number of perturbation sets does not match between child results");
+          for( int ipert=0; ipert<npertsets; ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_values[ipert][ich] = &pvv;
@@ -372,7 +373,8 @@ int MatrixMultiply::getResult (Result::Ref &resref,
                 int inx = vs.isDefined(spids[ispid],indices[ivs]);
                 if( inx >= 0 )
                 {
-                  for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+                  FailWhen(vs.numPertSets()!=npertsets,"number of perturbation sets does not match between child results");
+                  for( int ipert=0; ipert<npertsets; ipert++ )
                   {
                     const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                     pert_values[ipert][ivs] = &pvv;
-- 
2.43.0


From 935a75f878589229a120dc9a3841e305b87c885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 016/153] fix: WSum and WMean failed when a child had zero
 weight

---
 MEQ/src/Function.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 0259ad1..44e868c 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -119,10 +119,10 @@ int Function::getResult (Result::Ref &resref,
   Result::Dims out_dims;
   if( nrch )
   {
-    FailWhen(!childres[0]->numVellSets(),"no vellsets in result of child 0");
-    out_dims = childres[0]->dims();
-    for( int i=1; i<nrch; i++ )
+    for( int i=0; i<nrch; i++ )
     {
+      if( !childres[i].valid() )   // disabled child
+        continue;
       const Result &res = *childres[i];
       FailWhen(!res.numVellSets(),ssprintf("no vellsets in result of child %d",i));
       if( res.tensorRank() > 0 )
@@ -146,7 +146,8 @@ int Function::getResult (Result::Ref &resref,
   LoShape res_shape;
   // look for cells in child results
   for( int i=0; i<nrch; i++ )
-    Axis::mergeShape(res_shape,childres[i]->getVellSetShape());
+    if( childres[i].valid() )
+      Axis::mergeShape(res_shape,childres[i]->getVellSetShape());
   // if not found, use request cells
   if( res_shape.empty() && request.hasCells() )
     res_shape = request.cells().shape();
@@ -170,6 +171,8 @@ int Function::getResult (Result::Ref &resref,
     {
       child_vs[i] = 0;
       values[i] = 0;
+      if( !childres[i].valid() )   // disabled child
+        continue;
       const Result &chres = *childres[i];
       const HIID &label = children().getChildLabel(i);
       // does this child have a vellset?
-- 
2.43.0


From c117adc60873ff513e530b5843c3b266b252b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 017/153] fix: Stokes failed when I is constant and another
 plane is not

---
 MeqNodes/src/Stokes.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MeqNodes/src/Stokes.cc b/MeqNodes/src/Stokes.cc
index 04c2761..54c94c8 100644
--- a/MeqNodes/src/Stokes.cc
+++ b/MeqNodes/src/Stokes.cc
@@ -62,7 +62,6 @@ namespace Meq {
     const VellSet &vsU = tempres.vellSet(2);
     const VellSet &vsV = tempres.vellSet(3);
 
-    const Vells::Shape &shape = vsI.shape();
 
     const Vells &vellsI = vsI.getValue();
     
@@ -94,7 +93,6 @@ namespace Meq {
       const Vells &vellsU = vsU.getValue();
       const Vells &vellsV = vsV.getValue();
   
-      Vells vellsc0 = Vells(double(0.0),shape,true);
   
       // For now consider Linear Polarization
       Vells vellsXX = (vellsI + vellsQ)*scale_;
-- 
2.43.0


From 390188695ce692a6b97249090523efab18d8e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 018/153] fix: Bessel read out of bounds when the values are
 collapsed

---
 MeqNodes/src/Bessel.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/MeqNodes/src/Bessel.cc b/MeqNodes/src/Bessel.cc
index abf8c4e..4dae80a 100644
--- a/MeqNodes/src/Bessel.cc
+++ b/MeqNodes/src/Bessel.cc
@@ -68,15 +68,13 @@ Vells Bessel::evaluate (const Request&,const LoShape & inshape,
   } 
 
   // default is non scalar
-  blitz::Array<double,2> A(const_cast<double*>(invl.realStorage()),inshape);
-  Vells outvl(0.0,inshape);
-  
-  blitz::Array<double,2> B(outvl.realStorage(),inshape);
-  if (order_==0) {
-    B=blitz::j0(A);
-  } else {
-    B=blitz::j1(A);
-  } 
+  // the values may be collapsed w.r.t. the shape of the result
+  FailWhen(!invl.isReal(),"real child result expected");
+  Vells outvl(0.0,invl.shape());
+  const double *x = invl.realStorage();
+  double *y = outvl.realStorage();
+  for( int i=0; i<invl.nelements(); i++ )
+    y[i] = order_==0 ? j0(x[i]) : j1(x[i]);
   return outvl;
 }
 
-- 
2.43.0


From 35c06acdba3e52d768ceca3c577355ac020b915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 019/153] fix: a slice along the last axes gave an invalid rest
 shape

---
 MEQ/src/VellsSlicer.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/MEQ/src/VellsSlicer.cc b/MEQ/src/VellsSlicer.cc
index 878d6d9..ebfc488 100644
--- a/MEQ/src/VellsSlicer.cc
+++ b/MEQ/src/VellsSlicer.cc
@@ -64,10 +64,7 @@ void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,i
       shape_[i] = vshape[iaxis];
       strides_[i] = vstrides_[iaxis];
       // collapse this axis in the non-sliced shape
-      if( iaxis == int(ns_shape_.size())-1 )
-        ns_shape_.resize(iaxis);
-      else
-        ns_shape_[iaxis] = 1;       
+      ns_shape_[iaxis] = 1;
     }
     else
       shape_[i] = strides_[i] = 1;
-- 
2.43.0


From d2be5465a3eeb93af6c6e3d0ca84b44f7600ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 020/153] fix: reductions tested flags with a misplaced
 negation

---
 MeqNodes/src/ReductionFunction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index e4d4409..2cb0642 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -80,7 +80,7 @@ VellsFlagType ReductionFunction::isAllFlagged (const Vells &flagvells,VellsFlagT
   // output will have a flag only if all of input is flagged
   const VellsFlagType *pflag = flagvells.begin<VellsFlagType>();
   for( ; pflag != flagvells.end<VellsFlagType>(); pflag++ )
-    if( !(*pflag)&mask )
+    if( !((*pflag)&mask) )
       return 0;
   // if we got here, than all points are flagged
   return mask;
-- 
2.43.0


From 3fcbbc565261201f378e3d6586350bad5d481a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 021/153] fix: reducing over more axes than the values or flags
 have failed

---
 MEQ/src/VellsSlicer.cc          | 1 -
 MEQ/src/VellsSlicerWithFlags.cc | 1 -
 2 files changed, 2 deletions(-)

diff --git a/MEQ/src/VellsSlicer.cc b/MEQ/src/VellsSlicer.cc
index ebfc488..cf1fe00 100644
--- a/MEQ/src/VellsSlicer.cc
+++ b/MEQ/src/VellsSlicer.cc
@@ -33,7 +33,6 @@ namespace Meq
 void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,int n)
 {
   int rank = vells.rank();
-  FailWhen(n>rank,"rank of VellsSlicer is too high");
   // init internals
   writable_ = writable;
   pvells0_ = const_cast<Vells*>(&vells);
diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index 21ba918..325413c 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -35,7 +35,6 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
   // if flags not attached, use the static "null" flags
   fvells0_ = vells.hasDataFlags() ? &(vells.dataFlags()) : 0;
   int rank = std::max(vells.rank(),(fvells0_ ? fvells0_->rank() : 0));
-  FailWhen(n>rank,"rank of VellsSlicer is too high");
   // init internals
   pvells0_ = const_cast<Vells*>(&vells);
   data_size_ = vells.elementSize();
-- 
2.43.0


From 985913765ee5df54f1b2bc43f73a432c6035f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 022/153] fix: Sum, Product and NElements along some axes took
 the wrong number of points

---
 MeqNodes/src/ReductionFunction.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 2cb0642..b100833 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -131,16 +131,13 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   ConstVellsSlicerWithFlags0 slicer;
   makeVellsSlicer(outref,slicer,invells);
   Vells &out = outref();
-  // adjust shape: it may be bigger than the slice shape (i.e. if taking
-  // a sum while some axes are collapsed). So, for every axis that is present
-  // in the non-sliced shape, collapse the corresponding axis in the result shape
-  LoShape res_shape = res_shape0;
-  const LoShape &ns_shape = slicer.nonSlicedShape();
-  for( uint i=0; i<ns_shape.size(); i++ )
-  {
-    if( i<res_shape.size() && ns_shape[i] > 1  )
-      res_shape[i] = 1;
-  }
+  // the shape may be bigger than the slice shape (i.e. if taking a sum while 
+  // some axes are collapsed). Axis #i of a slice is reduction axis #i, so pick 
+  // these axes out of the result shape
+  LoShape res_shape;
+  res_shape.resize(reduction_axes_.size());
+  for( uint i=0; i<reduction_axes_.size(); i++ )
+    res_shape[i] = reduction_axes_[i] < int(res_shape0.size()) ? res_shape0[reduction_axes_[i]] : 1;
   // get pointers to output data
   char * ptr = static_cast<char*>(out.getDataPtr());
   size_t size = out.elementSize();
-- 
2.43.0


From 8378a67a6f79977ab80a3ec7697a87257d52e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 023/153] fix: reductions along leading axes took the wrong
 points of each slice

---
 MEQ/src/VellsSlicer.cc          | 40 ++++++++++++++++++++++++++++++++-
 MEQ/src/VellsSlicer.h           |  6 +++++
 MEQ/src/VellsSlicerWithFlags.cc |  5 +++--
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/VellsSlicer.cc b/MEQ/src/VellsSlicer.cc
index cf1fe00..b53d4bc 100644
--- a/MEQ/src/VellsSlicer.cc
+++ b/MEQ/src/VellsSlicer.cc
@@ -30,6 +30,44 @@
 namespace Meq 
 {
   
+void getConstSlice (Vells &out,const char *pdata,const LoShape &shape,
+                    const LoShape &strides,const Vells &vells)
+{
+  // check if slice is contiguous
+  bool contiguous = true;
+  int str = 1;
+  for( int i=int(shape.size())-1; i>=0; i-- )
+  {
+    contiguous &= shape[i] == 1 || int(strides[i]) == str;
+    str *= shape[i];
+  }
+  if( contiguous )
+  {
+    out.reference(pdata,shape,strides,vells);
+    return;
+  }
+  // else copy it element by element, the last axis iterating fastest
+  Vells copy(vells,shape,false);
+  size_t elsize = vells.elementSize();
+  char *pout = static_cast<char*>(copy.getDataPtr());
+  Vells::DimCounter counter;
+  counter.init(shape);
+  for(;;)
+  {
+    memcpy(pout,pdata,elsize);
+    pout += elsize;
+    int ndim = counter.incr();
+    if( !ndim )
+      break;
+    // the last ndim-1 axes have wrapped around
+    int iaxis = int(shape.size())-1;
+    for( ; ndim>1; ndim--,iaxis-- )
+      pdata -= (shape[iaxis]-1)*strides[iaxis]*elsize;
+    pdata += strides[iaxis]*elsize;
+  }
+  out = copy;
+}
+
 void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,int n)
 {
   int rank = vells.rank();
@@ -82,7 +120,7 @@ void ConstVellsSlicer0::initRefVells ()
   if( writable_ )
     vells_.reference(pdata_,shape_,strides_,*pvells0_);
   else
-    vells_.reference(const_cast<const char*>(pdata_),shape_,strides_,*const_cast<const Vells*>(pvells0_));
+    getConstSlice(vells_,pdata_,shape_,strides_,*pvells0_);
 }
 
 bool ConstVellsSlicer0::incr ()
diff --git a/MEQ/src/VellsSlicer.h b/MEQ/src/VellsSlicer.h
index e71e6b0..da25a6a 100644
--- a/MEQ/src/VellsSlicer.h
+++ b/MEQ/src/VellsSlicer.h
@@ -31,6 +31,12 @@
 namespace Meq 
 {
 
+// Makes 'out' a Vells of the slice of 'vells' that starts at pdata, with the 
+// given shape and strides. VellsMath works on contiguous data, so this is a 
+// reference to the slice if it is contiguous, and a copy of it if it is not.
+void getConstSlice (Vells &out,const char *pdata,const LoShape &shape,
+                    const LoShape &strides,const Vells &vells);
+
 // A VellsSlicer represents an N-dimensional slice through an M (>=N)
 // dimensional Vells. You create a VS from a Vells by specifying the
 // axes along which the slice is to be taken. The iterator then points
diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index 325413c..f45e7e2 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -25,6 +25,7 @@
 
 #define MEQVELLS_SKIP_FUNCTIONS 1
 #include <MEQ/VellsSlicerWithFlags.h>
+#include <MEQ/VellsSlicer.h>
     
     
 namespace Meq 
@@ -114,13 +115,13 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
 void ConstVellsSlicerWithFlags0::initRefVells ()
 {
   FailWhen(pdata_+sizeof_slice_ > pdata_end_,"VellsSlicerWithFlags iterated past end of data. This should never happen: please file a bug report");
-  vells_.reference(pdata_,shape_,strides_,*const_cast<const Vells*>(pvells0_));
+  getConstSlice(vells_,pdata_,shape_,strides_,*pvells0_);
   if( fvells0_ )
   {
     FailWhen(pflags_+sizeof_flag_slice_ > pflags_end_,"VellsSlicerWithFlags iterated past end of flags. This should never happen: please file a bug report");
     Vells::Ref flags;
     flags <<= new Vells;
-    flags().reference(pflags_,flag_shape_,flag_strides_,*fvells0_);
+    getConstSlice(flags(),pflags_,flag_shape_,flag_strides_,*fvells0_);
     vells_.setDataFlags(flags);
   }
 }
-- 
2.43.0


From 137bb854eac2c03041b2dba5b4a6156c4b799db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 024/153] fix: Rms and StdDev took the mean square over flagged
 points too

---
 MeqNodes/src/Rms.cc    | 8 ++++++--
 MeqNodes/src/StdDev.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/Rms.cc b/MeqNodes/src/Rms.cc
index fe76bbd..02bc699 100644
--- a/MeqNodes/src/Rms.cc
+++ b/MeqNodes/src/Rms.cc
@@ -39,14 +39,18 @@ Vells Rms::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  // math functions drop the flags, so pass them on to the squares
+  Vells vsq = sqr(*values[0]);
+  if( values[0]->hasDataFlags() )
+    vsq.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsq,flagmask_[0]);
     return sqrt(vmeansq);
   }
   else                      // reduce to single value
   {
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsq,flagmask_[0]);
     return sqrt(vmeansq);
   }
 }
diff --git a/MeqNodes/src/StdDev.cc b/MeqNodes/src/StdDev.cc
index cabad27..cfa70fb 100644
--- a/MeqNodes/src/StdDev.cc
+++ b/MeqNodes/src/StdDev.cc
@@ -40,16 +40,20 @@ Vells StdDev::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  // math functions drop the flags, so pass them on to the squares
+  Vells vsq = sqr(*values[0]);
+  if( values[0]->hasDataFlags() )
+    vsq.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
     Vells vmean = apply(VellsMath::mean,*values[0],flagmask_[0]);
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsq,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
   else                      // reduce to single value
   {
     Vells vmean = mean(*values[0],flagmask_[0]);
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsq,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
 }
-- 
2.43.0


From 72f470b0f0c8ef76411841b17c090c496da3dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 025/153] fix: StdDev of constant values could be NaN

---
 MeqNodes/src/StdDev.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/StdDev.cc b/MeqNodes/src/StdDev.cc
index cfa70fb..cd2ad73 100644
--- a/MeqNodes/src/StdDev.cc
+++ b/MeqNodes/src/StdDev.cc
@@ -36,6 +36,13 @@ StdDev::StdDev()
 StdDev::~StdDev()
 {}
 
+// takes root of a variance. Rounding errors can make the variance of (nearly)
+// constant values negative
+static Vells sqrtVariance (const Vells &var)
+{
+  return sqrt(var.isReal() ? max(var,Vells(0.)) : var);
+}
+
 Vells StdDev::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
@@ -48,13 +55,13 @@ Vells StdDev::evaluate (const Request&,const LoShape &,
   {
     Vells vmean = apply(VellsMath::mean,*values[0],flagmask_[0]);
     Vells vmeansq = apply(VellsMath::mean,vsq,flagmask_[0]);
-    return sqrt(vmeansq - sqr(vmean));
+    return sqrtVariance(vmeansq - sqr(vmean));
   }
   else                      // reduce to single value
   {
     Vells vmean = mean(*values[0],flagmask_[0]);
     Vells vmeansq = mean(vsq,flagmask_[0]);
-    return sqrt(vmeansq - sqr(vmean));
+    return sqrtVariance(vmeansq - sqr(vmean));
   }
 }
 
-- 
2.43.0


From d440d613b6302f8f4e73d36590311a64713c4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 026/153] fix: NElements along some axes read past its results
 for complex values

---
 MeqNodes/src/ReductionFunction.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index b100833..1c7cf57 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -138,6 +138,10 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   res_shape.resize(reduction_axes_.size());
   for( uint i=0; i<reduction_axes_.size(); i++ )
     res_shape[i] = reduction_axes_[i] < int(res_shape0.size()) ? res_shape0[reduction_axes_[i]] : 1;
+  // the function may return a real result for complex data (i.e. nelements)
+  Vells result = (*func)(slicer.vells(),res_shape,flagmask);
+  if( result.elementType() != out.elementType() )
+    out = Vells(result,slicer.nonSlicedShape(),false);
   // get pointers to output data
   char * ptr = static_cast<char*>(out.getDataPtr());
   size_t size = out.elementSize();
@@ -146,7 +150,7 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   for( ; slicer.valid(); slicer.incr(),ptr+=size )
   {
     DbgAssert(ptr<endptr);
-    Vells result = (*func)(slicer.vells(),res_shape,flagmask);
+    result = (*func)(slicer.vells(),res_shape,flagmask);
     memcpy(ptr,result.getConstDataPtr(),size);
   }
   DbgAssert(ptr==endptr);
-- 
2.43.0


From 191486c411b38918f88f014b0d7666f9ed0f9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 027/153] fix: copies of failed VellSets kept uninitialised
 pointers

---
 MEQ/src/VellSet.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 2bf835b..4b6963f 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -229,6 +229,13 @@ void VellSet::validateContent (bool)
     if( Record::hasField(FFail) ) // a fail result
     {
       is_fail_ = true;
+      // it has nothing else
+      shape_.clear();
+      pvalue_ = 0;
+      pflags_ = pweights_ = 0;
+      spids_ = 0;
+      numspids_ = 0;
+      pset_.clear();
     }
     else
     {
-- 
2.43.0


From 651eca6c851dc74ddaf485b6d67c7058065f611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 028/153] fix: Selector and Paster went out of bounds with
 slices along two or more axes

---
 MeqNodes/src/Paster.cc   | 5 ++++-
 MeqNodes/src/Selector.cc | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index d4530f6..385ec8a 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -148,7 +148,10 @@ int Paster::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
-              shp0[idim] = shp[idim]; 
+            {
+              shp0[idim] = shp[idim];
+              offset -= strides[idim]*shp[idim];
+            }
           }
       }
     }
diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index 75d546d..3b64506 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -159,7 +159,10 @@ int Selector::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
+            {
               shp0[idim] = shp[idim];
+              offset -= strides[idim]*shp[idim];
+            }
           }
       }
     }
-- 
2.43.0


From 5b30a251504a9af07e0a2e8aff29f1d2b9f818e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 029/153] fix: pasting variable data into a constant result
 failed for lack of cells

---
 MeqNodes/src/Paster.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index 385ec8a..d55e592 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -156,6 +156,9 @@ int Paster::getResult (Result::Ref &resref,
       }
     }
   }
+  // if the result had no cells (i.e. was constant), it may need them now
+  if( !resref->hasCells() && childres.hasCells() )
+    resref().setCells(childres.cells());
   // check that shapes are still valid (since we may have pasted in
   // a child result of a conflicting shape)
   resref().verifyShape();
-- 
2.43.0


From 9f4208b6983d741d515b4da96331883f0c607ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 030/153] fix: MatrixInvert22 ignored the flag mask for scalars

---
 MeqNodes/src/MatrixInvert22.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index aefa621..f3ee629 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -82,6 +82,16 @@ int MatrixInvert22::getResult (Result::Ref &resref,
       return RES_FAIL;
     // get writable ref to output VellSet (invokes COW I guess)
     VellSet &vs = result.vellSetWr(0);
+    // apply flagmask
+    if( vs.hasDataFlags() && flagmask_[0] != VellsFullFlagMask )
+    {
+      Vells::Ref flags;
+      if( flagmask_[0] )
+        Vells::mergeFlags(flags,vs.dataFlags(),flagmask_[0]);
+      vs.clearDataFlags();
+      if( flags.valid() )
+        vs.setDataFlags(flags);
+    }
     // invert main value
     vs.setValue(1/vs.getValue());
     // invert perturbed values
-- 
2.43.0


From c0336288804604f8300982dccb0a9e479e7b0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 031/153] fix: Composer miscounted failed and missing planes in
 tensor mode

---
 MeqNodes/src/Composer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MeqNodes/src/Composer.cc b/MeqNodes/src/Composer.cc
index 02d83b5..c651cbf 100644
--- a/MeqNodes/src/Composer.cc
+++ b/MeqNodes/src/Composer.cc
@@ -144,6 +144,8 @@ int Composer::getResult (Result::Ref &resref,
           vsref <<= &( chres.vellSet(0) );
           if( vsref->isFail() )
             nfails += nres0;
+          else if( vsref->isEmpty() )
+            nmissing += nres0;
         }
         else
         {
@@ -172,6 +174,9 @@ int Composer::getResult (Result::Ref &resref,
     if( !pcells && chres.hasCells() )
       pcells = &( chres.cells() );
   }
+  // in tensor mode, scalars and missing results have been repeated
+  if( tensor_mode )
+    nres = ires;
   if( nres )
   {
     if( nfails == nres )
-- 
2.43.0


From 8c113b6109bbb4516a87c729a7fc7a5e8fa20fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 032/153] fix: MatrixInvert22 refused two sets of perturbations

---
 MeqNodes/src/MatrixInvert22.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index f3ee629..e7bb238 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -151,7 +151,7 @@ int MatrixInvert22::getResult (Result::Ref &resref,
     VellSet * outvs[nvs];
     for( int i=0; i<nvs; i++ )
     {
-      outvs[i] = &(result.setNewVellSet(i));
+      outvs[i] = &(result.setNewVellSet(i,0,0));
       // attach flags to output vellsets
       if( flagref.valid() )
         outvs[i]->setDataFlags(flagref);
-- 
2.43.0


From 7005f1880431d87999873ed56d7a2ac08419df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 033/153] fix: multiplying by a unit scalar ignored a zero flag
 mask and flagged nulls

---
 MeqNodes/src/MatrixMultiply.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index fb31714..b3dd430 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -98,11 +98,20 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
         {
           Vells::Ref flags;
           const VellSet &vs0 = res->vellSet(i);
-          if( vs0.hasDataFlags() && !vs0.isNull() )
-            Vells::mergeFlags(flags,vs0.dataFlags(),fmt);
-          if( sca_vs.hasDataFlags() ) // not a null in this case
-            Vells::mergeFlags(flags,sca_vs.dataFlags(),fms);
-          if( flags.valid() && !vs0.sameDataFlags(flags) )
+          // nulls have no flags, same as below
+          if( !vs0.isNull() )
+          {
+            if( vs0.hasDataFlags() )
+              Vells::mergeFlags(flags,vs0.dataFlags(),fmt);
+            if( sca_vs.hasDataFlags() ) // not a null in this case
+              Vells::mergeFlags(flags,sca_vs.dataFlags(),fms);
+          }
+          if( !flags.valid() )
+          {
+            if( vs0.hasDataFlags() )
+              res().vellSetWr(i).clearDataFlags();
+          }
+          else if( !vs0.sameDataFlags(flags) )
             res().vellSetWr(i).setDataFlags(flags);
         }
       }
-- 
2.43.0


From 827a91bc8d48e44a9c020c6f5d5e1b0727cfee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 034/153] fix: a single plane could not be pasted into a slice
 of one plane

---
 MeqNodes/src/Paster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index d55e592..9007887 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -133,7 +133,8 @@ int Paster::getResult (Result::Ref &resref,
       // rank is the highest slicing axis+1.
       shp.resize(rank);
       // child result better have the same shape
-      FailWhen(childres.dims()!=shp,"shape of pasted Result does not match shape of selection");
+      // (a single plane has no dims)
+      FailWhen(shp.product()==1 ? nvs1!=1 : childres.dims()!=shp,"shape of pasted Result does not match shape of selection");
       Result &result = resref();
       int nout = shp.product();
       // calculate offset to start of slice
-- 
2.43.0


From 7e0cd2b7cddf47331b9c41b460ae04b0a9b0f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 035/153] fix: a chain of matrix products lost the cells in
 between

---
 MeqNodes/src/MatrixMultiply.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index b3dd430..4d959c1 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -416,6 +416,14 @@ int MatrixMultiply::getResult (Result::Ref &resref,
         } // for j
       } // for i
     } // else (end of proper multiplication case)
+    // the product is variable if any factor is, so give it cells
+    if( !resref1->hasCells() )
+    {
+      if( arga.hasCells() )
+        resref1().setCells(arga.cells());
+      else if( argb.hasCells() )
+        resref1().setCells(argb.cells());
+    }
     // store result in resref and possibly go back for another loop
     resref = resref1;
     // drop out with a fail if the multiplication was a total fail
-- 
2.43.0


From 8c3b0bb600b012e69b74e98d948ac1c9f4809096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 036/153] fix: ZeroFlagger replaced existing flags instead of
 adding to them

---
 MeqNodes/src/ZeroFlagger.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/ZeroFlagger.cc b/MeqNodes/src/ZeroFlagger.cc
index fbf5dda..6b606de 100644
--- a/MeqNodes/src/ZeroFlagger.cc
+++ b/MeqNodes/src/ZeroFlagger.cc
@@ -129,8 +129,15 @@ int ZeroFlagger::getResult (Result::Ref &resref,
           NodeThrow1("illegal operation to ZeroFlagger: "+oper_.toString());
     }
     if( tot_fl )
-      vs.setDataFlags(flagref);
-    else if( force_output_ )
+    {
+      // OR with the flags already present
+      Vells::Ref allflags;
+      if( vs.hasDataFlags() )
+        allflags.attach(vs.dataFlags());
+      Vells::mergeFlags(allflags,*flagref,VellsFullFlagMask);
+      vs.setDataFlags(allflags);
+    }
+    else if( force_output_ && !vs.hasDataFlags() )
       vs.setDataFlags(null_flags_);
   }
   // return 0 flag, since we don't add any dependencies of our own
-- 
2.43.0


From 42291bb6d27810ee1dc1e0cdbd4332fd67428aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 037/153] fix: a result with a single plane has no dimensions
 in its record either

---
 MEQ/src/Result.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Result.cc b/MEQ/src/Result.cc
index 7a9d970..724457b 100644
--- a/MEQ/src/Result.cc
+++ b/MEQ/src/Result.cc
@@ -234,9 +234,9 @@ int Result::allocateVellSets (const Dims &dims)
   else
     dims_ = dims;
   // if dims are non-trivial, store them in record
-  if( dims.size() > 1 )
+  if( dims_.size() > 1 )
   {
-    ref <<= new DMI::Vec(Tpint,dims.size(),&(dims[0]));
+    ref <<= new DMI::Vec(Tpint,dims_.size(),&(dims_[0]));
     Record::addField(FDims,ref,DMI::REPLACE|Record::PROTECT);
   }
   return nvs;
-- 
2.43.0


From 41d2b1dc4bd41c16560e3ea7c66fc50dee93a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 038/153] fix: a cleared VellSet has no weights

---
 MEQ/src/VellSet.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 4b6963f..fb0acce 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -386,6 +386,7 @@ void VellSet::clear()
   pset_.clear();
   pvalue_ = 0;
   pflags_ = 0;
+  pweights_ = 0;
   is_fail_ = false;
 }
 
-- 
2.43.0


From 5193ffb398014744b0e1d0e5ceebdad5203c9fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 039/153] fix: refuse a VellSet record with spids but no
 perturbations

---
 MEQ/src/VellSet.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index fb0acce..986e988 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -302,6 +302,7 @@ void VellSet::validateContent (bool)
         fld->protect(true);
         int size;
         // figure out number of perturbation sets in the record and setup shortcuts
+        pset_.resize(0);
         pset_.reserve(2);
         int iset = 0;
         while( (fld = Record::findField(FiPerturbations(iset))) != 0 )
@@ -351,6 +352,7 @@ void VellSet::validateContent (bool)
           }
           iset++;
         }
+        FailWhen(numspids_ && !iset,"spids without perturbations");
       }
       else
       {
-- 
2.43.0


From 8790e5f9fd0f5986147c0e94126e2f7456984403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 040/153] fix: refuse a Result record with non-positive
 dimensions

---
 MEQ/src/Result.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/Result.cc b/MEQ/src/Result.cc
index 724457b..4fed9c2 100644
--- a/MEQ/src/Result.cc
+++ b/MEQ/src/Result.cc
@@ -168,6 +168,8 @@ void Result::validateContent (bool)
     // get dimensions
     if( (*this)[FDims].get_vector(dims_) )
     {
+      for( uint i=0; i<dims_.size(); i++ )
+        FailWhen(dims_[i]<1,"illegal result dimensions");
       // product of dims must match # of vellsets in tensor
       FailWhen(dims_.product()!=numVellSets(),"dimensions do not match number of vellsets");
     }
-- 
2.43.0


From 456c5b2050626c5f436d8aa546831d6ef8bf81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 041/153] fix: HIID::subId() with negative positions went past
 the end of the id

---
 DMI/src/HIID.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index d57ea1e..425056e 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -44,8 +44,8 @@ HIID::HIID (const void* block, int sz)
 //##ModelId=3C55695F00CC
 HIID HIID::subId (int first, int last) const
 {
-  const_iterator iter1 = first >= 0 ? begin()+first : end()-first;
-  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()-(last+1);
+  const_iterator iter1 = first >= 0 ? begin()+first : end()+first;
+  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()+(last+1);
   if( iter1 >= iter2 )
     return HIID();
   else
-- 
2.43.0


From 3473f6e4d9bbcdd3257d7d6e297e647cb4c08439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 042/153] fix: HIID::push_front() lost the elements behind

---
 DMI/src/HIID.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/HIID.h b/DMI/src/HIID.h
index 6cce12f..789a145 100644
--- a/DMI/src/HIID.h
+++ b/DMI/src/HIID.h
@@ -411,7 +411,7 @@ inline void HIID::push_front (AtomicID aid,uint n)
   {
     int sz0 = size();
     resize(sz0+n);
-    memmove(&(*this)[n],&(front()),sz0);
+    memmove(&(*this)[n],&(front()),sz0*sizeof(AtomicID));
     iterator iter = begin();
     for( uint i=0; i < n; i++,iter++ )
       *iter = aid;
-- 
2.43.0


From 3b6bd97ae819e515a80e2c936197b63cf5a394de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 043/153] fix: array type names were registered under a name
 that is never looked up

---
 DMI/src/AtomicID.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DMI/src/AtomicID.h b/DMI/src/AtomicID.h
index 6b7828a..2e2a55d 100644
--- a/DMI/src/AtomicID.h
+++ b/DMI/src/AtomicID.h
@@ -165,6 +165,10 @@ inline std::ostream & operator << (std::ostream &str,AtomicID id)
 }
 
 // some special AtomicIDs
+// ids are registered by name in lower case, see AtomicID.cc
+template <>
+Registrar<int,string,AtomicID>::Registrar (const int &key, const string &val);
+
 const AtomicID AidNull(0),
                AidAny(-1),        // "?" 
                AidWildcard(-2),   // "*"
-- 
2.43.0


From 24dffffc0c7400291719912376905545046b4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 044/153] fix: HIID::toString() read past the end of an id that
 looks like a literal

---
 DMI/src/HIID.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index 425056e..2ff5f2a 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -197,9 +197,12 @@ string HIID::toString (char separator,bool mark_lit) const
       int len = iter->id()&LITERAL_LENGTH_MASK;
       int size = (len+LITERAL_RATIO-1)/LITERAL_RATIO;
       iter++;
+      if( size > end() - iter ) // not a literal, there's no string behind it
+        len = size = 0;
       if( mark_lit )
         result += "$";
-      result += string(reinterpret_cast<const char*>(&(*iter)),len);
+      if( len )
+        result += string(reinterpret_cast<const char*>(&(*iter)),len);
       iter += size-1; // skip over the aids forming the literal string
       sep = false;
     }
-- 
2.43.0


From 57cb8ab730820ddb785109e4f570c0726e3eabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 045/153] fix: numbers too large for an index became other
 indices or broken literals

---
 DMI/src/AtomicID.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DMI/src/AtomicID.cc b/DMI/src/AtomicID.cc
index c04710c..3bfab8a 100644
--- a/DMI/src/AtomicID.cc
+++ b/DMI/src/AtomicID.cc
@@ -23,6 +23,8 @@
 
 #include "AtomicID.h"
 #include <ctype.h>
+#include <errno.h>
+#include <stdlib.h>
 
 // define the strlwr function for strings
 string strlowercase (const string &in)
@@ -93,7 +95,15 @@ bool AtomicID::findName (int &aid,const string &str)
 #endif
       return aid != 0;
     }
-  aid = atoi(str.c_str());
+  // numbers that do not fit an index (higher values mark literals) are no AtomicIDs
+  errno = 0;
+  long num = strtol(str.c_str(),0,10);
+  if( errno || num >= 0x7FFF0000 )
+  {
+    aid = 0;
+    return false;
+  }
+  aid = num;
   return true;
 }
 
-- 
2.43.0


From e9928c0bdff7f649fe8961aacc95c55537731f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 046/153] fix: writable slicer privatizes the values it writes
 to, so that copies do not change

---
 MEQ/src/VellsSlicer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellsSlicer.cc b/MEQ/src/VellsSlicer.cc
index b53d4bc..5d69846 100644
--- a/MEQ/src/VellsSlicer.cc
+++ b/MEQ/src/VellsSlicer.cc
@@ -110,7 +110,9 @@ void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,i
   // now setup a DimCounter over the non-sliced axes
   counter_.init(ns_shape_);
   // setup initial data pointer
-  pdata_ = static_cast<char*>(const_cast<void*>(vells.getConstDataPtr()));
+  // (getDataPtr() makes sure that the data is not shared with anybody else)
+  pdata_ = static_cast<char*>( writable ? pvells0_->getDataPtr() 
+                               : const_cast<void*>(vells.getConstDataPtr()) );
   // setup reference Vells
   initRefVells();
 }
-- 
2.43.0


From fcc073a29d7a06ac70bcb4fa43d7df369f704c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 047/153] fix: array ids: whole trailing axes, open ranges,
 strided ranges and ranges beyond the end

---
 DMI/src/NumArray.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 03aa32e..6dd1275 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -697,7 +697,7 @@ int DMI::NumArray::get (const HIID& id, ContentInfo &info,bool nonconst,int flag
     // if keeping the axis, then add it to output shape & stride
     if( keepAxes[i] )
     {
-      subshape[iax] = (end[i]-st[i])/incr[i];
+      subshape[iax] = (end[i]-st[i]+incr[i]-1)/incr[i];
       substride[iax] = incr[i]*stride;
       iax--;
     }
@@ -755,6 +755,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
       // More than a single start value is given, thus keep the axis.
       nr++;
       keepAxes[nraxes] = true;
+      // up to the end of the axis, unless an end value follows
+      if( nr == 1 )
+        end[nraxes] = itsShape[nraxes];
       hadRange = true;
     }
     else 
@@ -792,6 +795,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
 	        AssertMsg (end[nraxes] > st[nraxes], "End " << end[nraxes]-1
 		           << " should be >= start " << st[nraxes]
 		           << " in HIID " << id.toString());
+	        AssertMsg (end[nraxes] <= itsShape[nraxes], "End " << end[nraxes]-1
+		           << " should be < axis length " << itsShape[nraxes]
+		           << " in HIID " << id.toString());
         }
         else if( nr == 2 ) 
         {
@@ -810,6 +816,10 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
   AssertMsg (!hadRange, "HIID " << id.toString()
 	     << " does not have a value after range delimiter");
   
+  // axes not mentioned in the id are kept whole
+  for( int i=nid ? nraxes+1 : 0; i<ndim; i++ )
+    keepAxes[i] = true;
+  
   int nkeep = 0;
   for( int i=0; i<ndim; i++ )
     if( keepAxes[i] )
-- 
2.43.0


From bb9fc995034dba2cc362c7c4bf50ac399e5f208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 048/153] fix: copies and blocks of a reference to an array
 slice contain the slice

---
 DMI/src/NumArray.cc | 37 +++++++++++++++++++++++++++++++++----
 DMI/src/NumArray.h  | 21 ++++++++++++++++++---
 2 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 6dd1275..9caa5f0 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -124,7 +124,8 @@ static void destroyStringArray (void *start,int num)
 DMI::NumArray::NumArray ()
 : Container (),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
 }
@@ -133,7 +134,8 @@ DMI::NumArray::NumArray ()
 DMI::NumArray::NumArray (TypeId type, const LoShape & shape,int flags,TypeId realtype) 
 : Container (),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
   init(type,shape,flags,realtype);
@@ -167,7 +169,8 @@ void DMI::NumArray::init (TypeId type, const LoShape & shape,int flags,TypeId re
 DMI::NumArray::NumArray (TypeId tid,const void *other,TypeId realtype) 
 : Container (),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
   // check arguments
@@ -194,7 +197,8 @@ DMI::NumArray::NumArray (TypeId tid,const void *other,TypeId realtype)
 DMI::NumArray::NumArray (const NumArray& other, int flags,int depth,TypeId realtype)
 : Container (),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
   cloneOther(other,flags,depth,true,realtype);
@@ -232,6 +236,14 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
     itsShape    = other.itsShape;
     itsSize     = other.itsSize;
     itsElemSize = other.itsElemSize;
+    // a slice is copied out, as its data is only a part of the data block
+    if( other.itsIsSlice )
+    {
+      init(other.itsShape,DMI::NOZERO,realtype);
+      copyArray(itsScaType,itsShape.size(),itsArray,other.itsArray);
+      validateContent(!constructing);
+      return;
+    }
     itsDataOffset = other.itsDataOffset;
     itsData.unlock().copy(other.itsData,flags,depth).lock();
     if( !realtype )
@@ -257,6 +269,18 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
   validateContent(!constructing);
 }
 
+void DMI::NumArray::privatizeSlice ()
+{
+  NumArray copy(*this,0,0,objectType());
+  itsDataOffset = copy.itsDataOffset;
+  itsData.unlock().detach();
+  itsData.copy(copy.itsData).lock();
+  copy.clear();
+  itsArrayData = itsData().cdata() + itsDataOffset;
+  assignDataReference(itsScaType,itsArray,itsArrayData,itsShape);
+  itsIsSlice = false;
+}
+
 void DMI::NumArray::makeArray ()
 {
   allocateArrayWithData(itsScaType,itsArray,itsArrayData,itsShape);
@@ -370,6 +394,7 @@ void DMI::NumArray::make_reference (void * pdata,bool writable,
   allocatePlacementArray(itsScaType,shape.size(),itsArray);
   assignWithStride (itsScaType,itsArray,pdata,shape,strides);
   itsArrayValid = true;
+  itsIsSlice = true;
 }
 
 //##ModelId=3DB949AF002C
@@ -404,6 +429,7 @@ void DMI::NumArray::clear()
   }
 #endif
   itsShape.resize (0);
+  itsIsSlice = itsWritableRef = false;
   
   itsData.unlock().detach();
 }
@@ -537,6 +563,9 @@ int DMI::NumArray::toBlock (BlockSet& set) const
     return 1;
   }
   dprintf1(2)("%s: toBlock\n",debug());
+  // only the elements of a slice are pushed out, not the whole data block
+  if( itsIsSlice )
+    return NumArray(*this,0,0,objectType()).toBlock(set);
 // strings are handled separately since the data needs to be copied out
   if( itsScaType == Tpstring )
   {
diff --git a/DMI/src/NumArray.h b/DMI/src/NumArray.h
index d9c805b..81abe58 100644
--- a/DMI/src/NumArray.h
+++ b/DMI/src/NumArray.h
@@ -442,6 +442,11 @@ public:
     Thread::Mutex::Lock _nclock(mutex());
     if( itsWritableRef )
       return;
+    if( itsIsSlice )
+    {
+      privatizeSlice();
+      return;
+    }
     if( itsData.privatize() )
     {
       itsArrayData = itsData().cdata() + itsDataOffset;
@@ -482,6 +487,9 @@ private:
   void make_reference (void * pdata,bool writable,
             const LoShape &shape,const LoShape &strides,const NumArray &other);
 
+  // turns a reference to a slice into an array with data of its own
+  void privatizeSlice ();
+
   // Create the actual casacore::Array object.
   // It is created from the array data part in the SmartBlock.
     //##ModelId=3DB949AF002B
@@ -521,6 +529,10 @@ private:
   // true when we are a writable ref to another NumArray, in this case
   // no attempt is made to COW the underlying block.
   bool       itsWritableRef;
+  
+  // true when we are a ref to a slice through another NumArray (writable or 
+  // not), i.e. when itsArray is not simply all of the data in itsData.
+  bool       itsIsSlice;
 
   //##ModelId=3DB949AE0370
   BlockRef    itsData;
@@ -607,7 +619,8 @@ template<class T,int N>
 NumArray::NumArray (const typename Traits<T,N>::Array & array,TypeId realtype)
 : Container(),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
   itsScaType  = typeIdOf(T);
@@ -623,7 +636,8 @@ template<class T,int N>
 NumArray::NumArray (const blitz::Array<T,N> &array,TypeId realtype)
 : Container(),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
   itsScaType  = typeIdOf(T);
@@ -661,7 +675,8 @@ template<class T>
 NumArray::NumArray (const casacore::Array<T> &array,TypeId realtype)
 : Container(),
   itsArrayValid(false),
-  itsWritableRef(false)    
+  itsWritableRef(false),
+  itsIsSlice(false)
 {
   initSubArray();
   init(array,realtype);
-- 
2.43.0


From eefd8bd1dc734f84685f113ad84e57e4616af312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 049/153] fix: a refused remove() of a container element
 destroyed its content

---
 DMI/src/Container.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index e734911..be1958e 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -417,7 +417,7 @@ DMI::ObjRef DMI::Container::Hook::remove () const
   resolveToWritableContainer();
   ObjRef ret;
   if( isRef() )
-    ret.xfer(const_cast<ObjRef*>(asRef(false))->unlock());
+    ret.copy(*asRef(false));  // not xfer(): the container may refuse to remove it
   nc->remove(*pid);
   target.ptr = 0;
   return ret;
-- 
2.43.0


From d136a11bfb36832470ddb6c1e855e545bd4c3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 050/153] fix: access to a record field by number used an
 uninitialised iterator

---
 DMI/src/Record.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 1aa3da2..9a6948f 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -345,6 +345,7 @@ int DMI::Record::get (const HIID &id,ContentInfo &info,
       return 0;
     FailWhen( nf > fields.size(),"record field number out of range");
     // advance to specified field
+    iter = fields.begin();
     for( uint i=0; i<nf && iter != fields.end(); i++,iter++ );
   }
   else // else HIID is field name
-- 
2.43.0


From 84497862277b5dc37b45fe28ff133063b5e18e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 051/153] fix: reading a list at a negative index, or an empty
 list, accessed the end of the list

---
 DMI/src/List.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 41c23d0..1a768a9 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -63,7 +63,6 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   if( n<0 )
   {
     ItemList::const_reverse_iterator riter = items.rbegin();
-    n++;
     while( n<0 && riter != items.rend() )
       ++n,++riter;
     FailWhen(n,"index out of range"); 
@@ -72,12 +71,9 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   else 
   {
     ItemList::const_iterator iter = items.begin();
-    while( n>0 )
-    {
-      n--;
-      iter++;
-      FailWhen(iter == items.end(),"index out of range"); 
-    }
+    while( n>0 && iter != items.end() )
+      --n,++iter;
+    FailWhen(iter == items.end(),"index out of range"); 
     return iter;
   }
 }
-- 
2.43.0


From 0cca248ef7216a2028e4b6e560945321a1fd7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 052/153] fix: Record::removeField() returned an empty
 reference

---
 DMI/src/Record.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DMI/src/Record.h b/DMI/src/Record.h
index 9f28179..53a51da 100644
--- a/DMI/src/Record.h
+++ b/DMI/src/Record.h
@@ -135,8 +135,7 @@ class Record : public Container
           // clears the field, but xfers the ref into out
           void xfer (ObjRef &out)
           {
-            makeObject();
-            out.xfer(ref_);
+            out.xfer(ref());
             clear();
           }
           
-- 
2.43.0


From 5c3e8a3a65b748e634407d799c3e8252006c05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 053/153] fix: a refused replacement of a vector element
 removed the element

---
 DMI/src/Container.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index be1958e..7f26211 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -671,7 +671,8 @@ void * DMI::Container::Hook::prepare_put( ContentInfo &info,TypeId tid ) const
     else if( tid == target.obj_tid || TypeInfo::isConvertible(tid,target.tid) )
       return targ;
     // non-matching type but replacement is allowed -- try a remove/insert 
-    else if( replacing )
+    // (unless the container has a fixed type and would refuse the insert)
+    else if( replacing && ( !nc->type() || nc->type() == real_tid ) )
     {
       removeTarget();
       target.tid = tid; target.obj_tid = real_tid;
-- 
2.43.0


From 7289e0ce3a00659d89ae2a1a8e9cbf66e0e2288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 054/153] fix: replacing a list item with a vector overwrote
 the next item as well

---
 DMI/src/Container.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index 7f26211..2d8bae9 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -783,10 +783,11 @@ void * DMI::Container::Hook::prepare_assign_array (bool &haveArray,TypeId tid,co
       haveArray = false;
       return targ;
     }
-    // else if we have an ObjRef, and replacing is enabled, then just remove
-    // the damn thing and return 0
-    else if( target.tid == TpDMIObjRef && replacing )
-      return removeTarget();
+    // else if we have an ObjRef, and replacing is enabled, then return 0: the
+    // caller will assign a new object to it. (Do not remove it here, since in
+    // a list this would make the hook point at the next item)
+    else if( target.tid == TpDMIObjRef && replacing && !nc->type() )
+      return 0;
     // last option is resolving to an existing sub-container. Try to move the
     // hook to this container, and throw exceptions on failure
     else if( !attempt )
@@ -880,12 +881,11 @@ void * DMI::Container::Hook::prepare_assign_vector (TypeId tid,int size) const
         ThrowExc(ConvError,"can't assign vector of "+tid.toString()+": size mismatch");
       }
     }
-    // else if we have an ObjRef, and replacing is enabled, then just remove
-    // the damn thing and return 0
-    else if( target.tid == TpDMIObjRef && replacing )
-    {
-      return removeTarget();
-    }
+    // else if we have an ObjRef, and replacing is enabled, then return 0: the
+    // caller will assign a new object to it. (Do not remove it here, since in
+    // a list this would make the hook point at the next item)
+    else if( target.tid == TpDMIObjRef && replacing && !nc->type() )
+      return 0;
     // last option is resolving to an existing sub-container. Try to move the
     // hook to this container, and throw exceptions on failure
     else if( !attempt )
-- 
2.43.0


From b1fefb6c1d16d1eeebdc9899a68aeef74f755e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 055/153] fix: appending a list to itself did not end

---
 DMI/src/List.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 1a768a9..f8cb56b 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -125,7 +125,9 @@ void DMI::List::append (const List &other,int flags)
 {
   Thread::Mutex::Lock _nclock(mutex());
   Thread::Mutex::Lock _nclock2(other.mutex());
-  for( ItemList::const_iterator iter = other.items.begin(); iter != other.items.end(); iter++ )
+  // count the items first, since other may be this list itself
+  int n = other.items.size();
+  for( ItemList::const_iterator iter = other.items.begin(); n > 0; iter++,n-- )
     items.push_back(iter->copy(flags));
 }
 
-- 
2.43.0


From 6a2c8b8ce2059cb9680a38b94cdd313d2fba14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 056/153] fix: copies of a scalar were not scalars after
 resize(1)

---
 DMI/src/Vec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index d260c3a..666a461 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -206,7 +206,7 @@ void DMI::Vec::resize (int newsize)
   {
     headref_().resize(sizeof(HeaderBlock)+typeinfo.size*newsize);
     phead_ = static_cast<HeaderBlock*>(headref_().data());
-    phead_->size = newsize;
+    phead_->size = scalar ? -newsize : newsize;
   }
   else if( dynamic_type )
   {
-- 
2.43.0


From d3d9391e6bdd1fcc4858934d438ce3af81698c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 057/153] fix: header blocks too small for a type id were read
 beyond their end

---
 DMI/src/DynamicTypeManager.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DMI/src/DynamicTypeManager.cc b/DMI/src/DynamicTypeManager.cc
index cba8e66..6649cc1 100644
--- a/DMI/src/DynamicTypeManager.cc
+++ b/DMI/src/DynamicTypeManager.cc
@@ -35,7 +35,10 @@ ObjRef DynamicTypeManager::construct (TypeId tid, BlockSet& bset)
   if( bset.empty() )
     return ObjRef(construct(tid));
   if( tid == 0 )
+  {
+    FailWhen( bset.front()->size() < sizeof(BObj::Header),"malformed header block" );
     tid = static_cast<const BObj::Header *>(bset.front()->data())->tid;
+  }
   BObj * pobj = construct(tid);
   if( pobj )
   {
@@ -50,7 +53,10 @@ ObjRef DynamicTypeManager::construct (TypeId tid, BlockSet& bset)
 BObj * DynamicTypeManager::construct (TypeId tid, BlockSet& bset, int n)
 {
   if( tid == 0 )
+  {
+    FailWhen( bset.empty() || bset.front()->size() < sizeof(BObj::Header),"malformed header block" );
     tid = static_cast<const BObj::Header *>(bset.front()->data())->tid;
+  }
   BObj *obj = construct(tid,n);
   for( int i=0; i<(n?n:1); i++ )
     obj[i].fromBlock(bset);
-- 
2.43.0


From fa326cee8b31dbb971bc60b9fbccfb58458ff5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 058/153] fix: missing blocks, and negative block counts, were
 not detected

---
 DMI/src/BlockSet.cc | 1 +
 DMI/src/BlockSet.h  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/DMI/src/BlockSet.cc b/DMI/src/BlockSet.cc
index aff7ead..e64e163 100644
--- a/DMI/src/BlockSet.cc
+++ b/DMI/src/BlockSet.cc
@@ -32,6 +32,7 @@ namespace DMI
 //##ModelId=3BFA56540172
 int BlockSet::popMove (BlockSet& outset, int count)
 {
+  FailWhen( count<0,"Negative number of refs requested in popMove" );
   FailWhen( count>size(),"Too many refs requested in popMove" );
   for( int i=0; i<count; i++ )
   {
diff --git a/DMI/src/BlockSet.h b/DMI/src/BlockSet.h
index ae8c8c6..8848d1c 100644
--- a/DMI/src/BlockSet.h
+++ b/DMI/src/BlockSet.h
@@ -97,6 +97,7 @@ class BlockSet
       //## Removes & returns first reference in set
       BlockRef pop ()
       {
+        FailWhen( refs.empty(),"no more blocks in set" );
         BlockRef out = refs.front();
         refs.pop_front();
         --cursize;
@@ -107,6 +108,7 @@ class BlockSet
       //## Removes & returns first reference in set via out
       void pop (BlockRef &out)
       {
+        FailWhen( refs.empty(),"no more blocks in set" );
         out.xfer(refs.front());
         refs.pop_front();
         --cursize;
-- 
2.43.0


From 653251bd9aaf8d10c65478f4eaeb1422e0b5017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 059/153] fix: records with a corrupted header were read beyond
 the end of the header

---
 DMI/src/Record.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 9a6948f..598cc05 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -239,6 +239,7 @@ int DMI::Record::fromBlock (BlockSet& set)
   int blockcount = BObj::checkHeader(phead);
   // get # of fields
   int nfields = phead->num_fields;
+  FailWhen( nfields < 0 || size_t(nfields) > hsize/sizeof(BlockFieldInfo),"malformed header block" );
   const BlockFieldInfo *fieldinfo = phead->fields;
   size_t off_hids = sizeof(Header) + sizeof(BlockFieldInfo)*nfields; // IDs start at this offset
   FailWhen( hsize < off_hids,"malformed header block" );
@@ -248,7 +249,7 @@ int DMI::Record::fromBlock (BlockSet& set)
   {
     // extract ID from header block
     int idsize = fieldinfo->idsize;
-    FailWhen( hsize < off_hids+idsize,"malformed header block" );
+    FailWhen( idsize < 0 || hsize - off_hids < size_t(idsize),"malformed header block" );
     HIID id(chead+off_hids,idsize);
     off_hids += idsize;
     // create field container object
@@ -256,7 +257,7 @@ int DMI::Record::fromBlock (BlockSet& set)
     int bc = fieldinfo->blockcount;
     if( bc )
     {
-      FailWhen(set.size()<bc,"Record::fromBlock: unexpectedly ran out of blocks");
+      FailWhen(bc<0 || set.size()<bc,"Record::fromBlock: unexpectedly ran out of blocks");
       field.fromBlock(set,bc);
       nref += bc;
     }
-- 
2.43.0


From 71fdcd2184ae31e963fb0a092baeeea2511660a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 060/153] fix: lists with a corrupted number of items

---
 DMI/src/List.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index f8cb56b..ccad119 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -163,7 +163,7 @@ int DMI::List::fromBlock (BlockSet& set)
   const Header *hdata = static_cast<const Header *>( headref->data() );
   int blockcount = BObj::checkHeader(hdata);
   int nfields = hdata->num_items;
-  FailWhen(hsize != sizeof(Header)+sizeof(int)*nfields,"malformed header block");
+  FailWhen(nfields < 0 || hsize != sizeof(Header)+sizeof(int)*nfields,"malformed header block");
   dprintf(2)("fromBlock: %d header bytes, %d fields expected\n",hsize,nfields);
   // get fields one by one
   for( int i=0; i<nfields; i++ )
-- 
2.43.0


From 38afb9ca1a850a0b8e6d5f8932db7d4bd19a100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 061/153] fix: vectors with a corrupted header were read beyond
 the end of the header

---
 DMI/src/Vec.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index 666a461..b31555b 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -311,10 +311,10 @@ int DMI::Vec::fromBlock (BlockSet& set)
   set.pop(headref_);  
   size_t hsize = headref_->size();
   phead_ = static_cast<HeaderBlock*>(const_cast<void*>(headref_->data()));
-  // verify BObj header
-  int blockcount = BObj::checkHeader(phead_);
   // first two ints in header block are type and size
   FailWhen( hsize < sizeof(HeaderBlock),"malformed header block" );
+  // verify BObj header
+  int blockcount = BObj::checkHeader(phead_);
   // get type and size from header
   mytype  = phead_->type;
   mysize_ = phead_->size;
@@ -326,7 +326,11 @@ int DMI::Vec::fromBlock (BlockSet& set)
   else
     scalar = false;
   if( !mytype )  // uninitialized field
+  {
+    mysize_ = 0;
     return 1;
+  }
+  FailWhen( mysize_ < 1,"malformed header block" );
   // obtain type information, check that type is supported
   typeinfo = TypeInfo::find(mytype);
   binary_type = dynamic_type = container_type = false;
-- 
2.43.0


From de8fccfbf2a7f9ca175f7914ec730227359ef8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 062/153] fix: arrays with a corrupted shape had elements
 beyond the end of their data

---
 DMI/src/NumArray.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 9caa5f0..7e4fd46 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -486,7 +486,7 @@ int DMI::NumArray::fromBlock (BlockSet& set)
               "invalid array element type" + itsScaType.toString() ); 
     uint rank = hdr->rank;
     FailWhen( rank < 1 || rank > MaxLorrayRank,"invalid array rank" );
-    FailWhen( hsize < (2+rank)*sizeof(int), "malformed data block" );
+    FailWhen( hsize < sizeof(Header)+sizeof(uint)*rank,"malformed data block" );
     // derive array type & element size
     itsType = TpArray(itsScaType,rank);
     itsElemSize = itsScaType == Tpstring ? sizeof(string) : typeinfo.size;
@@ -495,7 +495,11 @@ int DMI::NumArray::fromBlock (BlockSet& set)
     itsShape.resize(rank);
     itsSize = 1;
     for( uint i=0; i<rank; i++ )
+    {
+      // all elements take up space in the block
+      FailWhen( hdr->shape[i] > hsize || itsSize*hdr->shape[i] > hsize,"malformed data block" );
       itsSize *= itsShape[i] = hdr->shape[i];
+    }
 
     // compute size of data block & offset into it
     size_t blocksize = sizeof(Header) + sizeof(uint)*rank;
-- 
2.43.0


From 57d782b86ab24843f801de6fc2b146bc04415a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 063/153] fix: packed arrays with corrupted sizes were read
 beyond their end

---
 DMI/src/Packer.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/DMI/src/Packer.h b/DMI/src/Packer.h
index 9a78ad7..0496aba 100644
--- a/DMI/src/Packer.h
+++ b/DMI/src/Packer.h
@@ -642,15 +642,15 @@ void ArrayPacker<T,ElemPacker>::unpack (T* arr, int n, const void *block, size_t
   {
     sz0 += elsize *= n;
     FailWhen(sz<sz0,"corrupt block");
-    memcpy(arr,block,elsize);
+    memcpy(arr,data,elsize);
   }
   else // variable-length elements
   {
     for( int i=0; i<n; i++,arr++ )
     {
       size_t s1 = *(hdr++);
+      FailWhen(sz-sz0<s1,"corrupt block");
       sz0 += s1;
-      FailWhen(sz<sz0,"corrupt block");
       ElemPacker::unpack(*arr,data,s1);
       data += s1;
     }
@@ -677,13 +677,17 @@ template <class T, class ElemPacker>
 T* ArrayPacker<T,ElemPacker>::allocate (const void *block, size_t sz, int& n)
 {
   FailWhen(sz<sizeof(size_t),"corrupt block");
-  n = (int) *static_cast<const size_t*>(block);
+  size_t n0 = *static_cast<const size_t*>(block);
+  // elements take up space in the block, either themselves or for their size
+  size_t elsize = ElemPacker::binary();
+  FailWhen(n0 > (sz-sizeof(size_t))/(elsize ? elsize : sizeof(size_t)),"corrupt block");
+  n = int(n0);
   T *ptr = new T[n];
   try {
     unpack(ptr,n,block,sz);
-  } catch( std::exception &exc ) {
+  } catch( ... ) {
     delete [] ptr;
-    throw(exc);
+    throw;
   }
   return ptr;
 }
-- 
2.43.0


From d7cbfd8ef86d5f1d598bfbd428a999aef1e17aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 064/153] fix: files with corrupted or truncated headers
 overran the stack or were taken for complete

---
 DMI/src/BOIO.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 1f010f1..feef6a6 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <errno.h>
 #include <string.h>
+#include <vector>
 #include "BOIO.h"
 #include "DynamicTypeManager.h"
 
@@ -127,8 +128,17 @@ TypeId BOIO::readAny (ObjRef &ref)
     return 0;
   have_header = false;
   // read array of block sizes
-  size_t sizes[header.nblocks];
-  if( fread(&sizes,sizeof(sizes),1,fp) != 1 )
+  FailWhen(header.nblocks < 1,"error reading file "+fname+": bad block count");
+  // a corrupted file may contain any block count or size here, so allocate
+  // only what is left in the file
+  long pos = ::ftell(fp);
+  ::fseek(fp,0,SEEK_END);
+  size_t remains = pos<0 ? size_t(-1) : ::ftell(fp) - pos;
+  ::fseek(fp,pos,SEEK_SET);
+  FailWhen(size_t(header.nblocks) > remains/sizeof(size_t),"error reading file "+fname+": unexpected EOF");
+  std::vector<size_t> sizes(header.nblocks);
+  remains -= sizeof(size_t)*header.nblocks;
+  if( fread(&sizes[0],sizeof(size_t)*header.nblocks,1,fp) != 1 )
   {
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
     Throw("error reading file "+fname+": unexpected EOF");
@@ -137,9 +147,11 @@ TypeId BOIO::readAny (ObjRef &ref)
   BlockSet set;
   for( int i=0; i<header.nblocks; i++ )
   {
+    FailWhen(sizes[i] > remains,"error reading file "+fname+": unexpected EOF");
+    remains -= sizes[i];
     SmartBlock *block = new SmartBlock(sizes[i]);
     set.pushNew() <<= block;
-    if( fread(block->data(),sizes[i],1,fp) != 1 )
+    if( sizes[i] && fread(block->data(),sizes[i],1,fp) != 1 )
     {
       FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
       Throw("error reading file "+fname+": unexpected EOF");
@@ -164,14 +176,18 @@ TypeId BOIO::nextType ()
   have_header = true;
   if( feof(fp) )
     return 0;
-  else if( fread(&header,sizeof(header),1,fp) != 1 )
+  size_t nread = fread(&header,1,sizeof(header),fp);
+  if( nread != sizeof(header) )
   {
+    header.tid = 0;
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
+    FailWhen(nread,"error reading file "+fname+": unexpected EOF");
     // check for EOF again
     if( feof(fp) )
       return 0;
     Throw("unknown error reading file "+fname);
   }
+  FailWhen(!header.tid,"error reading file "+fname+": bad object type");
   return header.tid;
 }
 
@@ -191,17 +207,17 @@ size_t BOIO::write (const DMI::BObj &obj)
   FailWhen(fwrite(&hdr,sizeof(hdr),1,fp)!= 1,"error writing boio file "+fname+": "+strerror(errno));
   size_t written = sizeof(hdr);
   // format and write size array
-  size_t sizes[hdr.nblocks];
+  std::vector<size_t> sizes(hdr.nblocks);
   BlockSet::iterator iter = set.begin();
   for( int i=0; i<set.size(); i++,iter++ )
     sizes[i] = (*iter)->size();
   DbgAssert(iter == set.end());
-  FailWhen( fwrite(&sizes,sizeof(sizes),1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+  FailWhen( fwrite(&sizes[0],sizeof(size_t)*hdr.nblocks,1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
   // write out the blocks
   iter = set.begin();
   for( int i=0; i<set.size(); i++,iter++ )
   {
-    FailWhen( fwrite((*iter)->data(),sizes[i],1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
+    FailWhen( sizes[i] && fwrite((*iter)->data(),sizes[i],1,fp) != 1,"error writing boio file "+fname+": "+strerror(errno));
     written += sizes[i];
   }
   DbgAssert(iter == set.end());
-- 
2.43.0


From ac93a8a5a93dce463eff90433b9cca1047697362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 065/153] fix: axis numbers beyond the maximum were used as
 array indices

---
 MEQ/src/Axis.h    | 8 +++++++-
 MEQ/src/Cells.cc  | 4 +---
 MEQ/src/Domain.cc | 4 +---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/MEQ/src/Axis.h b/MEQ/src/Axis.h
index b6d8de4..f67a7d5 100644
--- a/MEQ/src/Axis.h
+++ b/MEQ/src/Axis.h
@@ -90,7 +90,13 @@ namespace Axis
     {
       int index = id[0].index();
       if( index >= 0 )
-        return index;
+      {
+        if( index < MaxAxis )
+          return index;
+        if( nothrow )
+          return -1;
+        Throw("unknown axis: "+id.toString());
+      }
     }
     // else look in map
     std::map<HIID,int>::const_iterator f = _num_map.find(id);
diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 779809b..4852542 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -417,9 +417,7 @@ void Cells::validateContent (bool)
         const HIID &id = iter.id();
 // NB: not sure what I was thinking of here, why can't we have longer axis IDs?
 //        FailWhen(id.size()!=1,"illegal axis ID "+id.toString());
-        int iaxis = id[0].index();
-        if( iaxis<0 || id.size()>1 )
-          iaxis = Axis::axis(id);
+        int iaxis = Axis::axis(id);
         // check that this axis is defined in the domain
         FailWhen(!domain_->isDefined(iaxis),"axis "+id.toString()+" not defined in domain");
         // set grid centers and axis shape
diff --git a/MEQ/src/Domain.cc b/MEQ/src/Domain.cc
index 6322a7b..8014e55 100644
--- a/MEQ/src/Domain.cc
+++ b/MEQ/src/Domain.cc
@@ -147,9 +147,7 @@ void Domain::validateContent (bool)
       const BObj *pobj = iter.ref().deref_p();
       const Container *pcont = dynamic_cast<const Container*>(pobj);
       FailWhen(!pcont,"illegal content of type "+pobj->objectType().toString()+" for axis "+id.toString());
-      int iaxis = id[0].index();
-      if( iaxis<0 || id.size()>1 )
-        iaxis = Axis::axis(id);
+      int iaxis = Axis::axis(id);
       int size;
       const double *a = (*pcont)[HIID()].as_p<double>(size);
       FailWhen(size!=2,"bad axis specification for "+id.toString());
-- 
2.43.0


From 3191b808ad08fd12f3b963a98b156132ef374451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 066/153] fix: the segments of copied or received Cells
 extended beyond the end of their data

---
 MEQ/src/Cells.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 4852542..89b7e0c 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -430,8 +430,10 @@ void Cells::validateContent (bool)
         cell_size_[iaxis].reference(LoVec_double(const_cast<double*>(rcs[id].as_p<double>(np)),shape,blitz::neverDeleteData));
         Assert(np==shape[0]);
         int np1,np2;
-        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FStartIndex].as_p<int>(np1)),shape,blitz::neverDeleteData));
-        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FEndIndex].as_p<int>(np2)),shape,blitz::neverDeleteData));
+        const int * pstart = rseg[id][FStartIndex].as_p<int>(np1);
+        const int * pend   = rseg[id][FEndIndex].as_p<int>(np2);
+        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(pstart),LoShape1(np1),blitz::neverDeleteData));
+        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(pend),LoShape1(np2),blitz::neverDeleteData));
         Assert(np1==np2);
       }
       protectField(FDomain);
-- 
2.43.0


From 10d5eb821617e11b7b97c213bdb9f460abdafb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 067/153] fix: received funklets without coefficients, and
 Results with other things than vellsets, dereferenced invalid pointers

---
 MEQ/src/Funklet.cc | 2 +-
 MEQ/src/Result.cc  | 1 +
 MEQ/src/Spline.cc  | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Funklet.cc b/MEQ/src/Funklet.cc
index a3df5da..01f82ef 100644
--- a/MEQ/src/Funklet.cc
+++ b/MEQ/src/Funklet.cc
@@ -168,7 +168,7 @@ void Funklet::validateContent (bool)
     else
       pcoeff_ = 0;
     // check for sanity
-    Assert( coeff().rank()<=rank());
+    Assert( !pcoeff_ || coeff().rank()<=rank());
   }
   catch( std::exception &err )
   {
diff --git a/MEQ/src/Result.cc b/MEQ/src/Result.cc
index 4fed9c2..9c95e0c 100644
--- a/MEQ/src/Result.cc
+++ b/MEQ/src/Result.cc
@@ -162,6 +162,7 @@ void Result::validateContent (bool)
     {
       fld->protect(true);
       pvellsets_ = &( fld->ref().ref_cast<DMI::Vec>() );
+      FailWhen((*pvellsets_)->type() != TpMeqVellSet,FVellSets.toString()+": not MeqVellSets");
     }
     else
       pvellsets_ = 0;
diff --git a/MEQ/src/Spline.cc b/MEQ/src/Spline.cc
index 09fb163..9c1952c 100644
--- a/MEQ/src/Spline.cc
+++ b/MEQ/src/Spline.cc
@@ -250,6 +250,9 @@ void Spline::do_evaluate (VellSet &vs,const Cells &cells,
 
 
 void Spline::init(){
+    if( !pcoeff_ )
+      return;
+    FailWhen(coeff().rank()>MaxSplineRank,"Meq::Spline: coeff can have max. rank of 8");
     Domain dom = domain();
     LoShape shape = coeff().shape();
     for(int axis = 0;axis<coeff().rank();axis++){
-- 
2.43.0


From b4369585beced7f3c85bfa099d61a007f2314d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 068/153] fix: vectors were filled with received objects of
 another type than theirs

---
 DMI/src/Vec.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index b31555b..903bb1b 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -535,6 +535,7 @@ DMI::ObjRef & DMI::Vec::resolveObject (int n) const
     {
         dprintf(3)("resolveObject(%d): unblocking %s\n",n,mytype.toString().c_str());
         elem.ref = DynamicTypeManager::construct(0,elem.bset);
+        FailWhen( elem.ref->objectType() != mytype,"element type mismatch" );
         elem.ref.lock();
         // verify that no blocks were left over
         FailWhen( elem.bset.size()>0,"block count mismatch" );
-- 
2.43.0


From 3cc1dc34f0bfd749d58cae9e4246c7567d178501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 069/153] fix: one plane, or perturbed value, received in a
 scalar vector was counted as the number of its own elements

---
 MEQ/src/Result.h   | 2 +-
 MEQ/src/VellSet.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Result.h b/MEQ/src/Result.h
index 40a0c2b..a72e1c6 100644
--- a/MEQ/src/Result.h
+++ b/MEQ/src/Result.h
@@ -197,7 +197,7 @@ public:
 
     //##ModelId=400E53550185
   int numVellSets () const
-    { return pvellsets_ ? pvellsets_->deref().size() : 0; }
+    { return pvellsets_ ? pvellsets_->deref().size(TpMeqVellSet) : 0; }
 
     //##ModelId=400E53550189
   const VellSet & vellSet (int i) const
diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 986e988..79130b0 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -320,7 +320,7 @@ void VellSet::validateContent (bool)
             DMI::Vec::Ref *pvr = &( fld->ref().ref_cast<DMI::Vec>() );
             const DMI::Vec * pvec = pvr->deref_p();
             FailWhen(pvec->type() != TpMeqVells,fld_id.toString()+": not MeqVells");
-            FailWhen(pvec->size() != numspids_,"size mismatch between spids and "+fld_id.toString());
+            FailWhen(pvec->size(TpMeqVells) != numspids_,"size mismatch between spids and "+fld_id.toString());
             pset_[iset].pertval_vec = pvr;
             fld->protect(true);
             // init flags in perturbed Vells
-- 
2.43.0


From 2b647a6c35596d21ac1867701c11be7a5655399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 070/153] fix: Python integers beyond 32 bits were silently
 truncated

---
 OCTOPython/src/DataConv.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index d84fbcb..4c3b85e 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -348,7 +348,12 @@ TypeId pyToDMI_Type (PyObject *obj)
   if( obj == Py_None ) 
     return TpDMIObjRef;
   else if( PyInt_Check(obj) )
-    return Tpint;
+  {
+    // numbers that don't fit into an int are kept as a long
+    int overflow;
+    long value = PyLong_AsLongAndOverflow(obj,&overflow);
+    return overflow || value != int(value) ? Tplong : Tpint;
+  }
   else if( PyLong_Check(obj) )
     return Tplong;
   else if( PyFloat_Check(obj) )
@@ -415,20 +420,20 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
           }
           break;
     case Tplong_int:
-          if( pvec0 )
-            (*pvec0)[pvec_pos] = PyLong_AsLong(obj);
-          else // single numeric scalar -- convert to DatArray
-          {
-            objref <<= parr = new DMI::NumArray(Tplong,LoShape(1));
-            *static_cast<long*>(parr->getDataPtr()) = PyLong_AsLong(obj);
-          }
+         {
+          long value = PyLong_AsLong(obj);
           if( PyErr_Occurred() )
           {
             if( PyErr_ExceptionMatches(PyExc_OverflowError) )
               throwErrorOpt(Overflow,"overflow in long type");
             throwErrorOpt(Type,"unexpected error: "+string(PyErr_Occurred()->ob_type->tp_name));
           }
+          if( pvec0 )
+            (*pvec0)[pvec_pos] = value;
+          else // single numeric scalar -- there are no arrays of longs, so use a vector
+            objref <<= new DMI::Vec(Tplong,-1,&value);
           break;
+         }
     case Tpdouble_int:
           if( pvec0 )
             (*pvec0)[pvec_pos] = PyFloat_AS_DOUBLE(obj);
@@ -523,7 +528,7 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
               // actual type may be a subclass of basetype (e.g.
               // base is DMI::Record, actual type is Meq::Result)
               TypeId type = getDMIType(*item);
-              if( !type )
+              if( !type || basetype == Tplong )
                 type = basetype;
               // set sequence type if not set
               if( !seqtype )
-- 
2.43.0


From 4fb35b92d5f63fe22c2495ad7b444aee32d16bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 071/153] fix: strings with null characters were truncated, and
 those invalid as UTF-8 dereferenced a null pointer, in conversion from and to
 Python

---
 OCTOPython/src/DataConv.cc  | 15 ++++++++++++++-
 OCTOPython/src/OctoPython.h |  6 +++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index 4c3b85e..38429de 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -338,6 +338,19 @@ int pyToArray (DMI::NumArray::Ref &arref,PyObject *pyobj)
   return 1;
 }
 
+// returns Python string as an std::string, throws exception if this can't be done
+static string pyToString (PyObject *obj)
+{
+#if PY_MAJOR_VERSION < 3
+  return string(PyString_AS_STRING(obj),PyString_GET_SIZE(obj));
+#else
+  PyObjectRef bytes = PyUnicode_AsEncodedString(obj,"utf-8","surrogateescape"); // new ref
+  if( !bytes )
+    throwErrorOpt(Type,"string can't be encoded");
+  return string(PyBytes_AS_STRING(*bytes),PyBytes_GET_SIZE(*bytes));
+#endif
+}
+
 // returns DMI TypeId corresponding to python object
 // TpDMIObjRef for None objects
 // TpDMIList for sequence objects
@@ -457,9 +470,9 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
          }
     case Tpstring_int:
          {
+          string v = pyToString(obj);
           if( !pvec0 )
             objref <<= pvec0 = new DMI::Vec(Tpstring);
-          auto v = PyString_AS_STRING(obj);
           (*pvec0)[pvec_pos] = v;
           break;
          }
diff --git a/OCTOPython/src/OctoPython.h b/OCTOPython/src/OctoPython.h
index 5b08e78..39618e2 100644
--- a/OCTOPython/src/OctoPython.h
+++ b/OCTOPython/src/OctoPython.h
@@ -98,7 +98,11 @@ namespace OctoPython
   PyObject * pyFromHIID     (const HIID &);
   // simple helper for std::strings, returns NEW REF
   inline PyObject * pyFromString (const std::string &str)
-  { return PyString_FromString(str.c_str()); }
+#if PY_MAJOR_VERSION < 3
+  { return PyString_FromStringAndSize(str.data(),str.size()); }
+#else
+  { return PyUnicode_DecodeUTF8(str.data(),str.size(),"surrogateescape"); }
+#endif
   
   // Build DMI objects from Python objects.
   // Returns 1 on success, or throws an exception on 
-- 
2.43.0


From 92b91ee68c8b8468007956314565e969d2f3451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 072/153] fix: hiid elements beyond 32 bits were silently
 truncated

---
 OCTOPython/src/DataConv.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index 38429de..6274161 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -57,7 +57,9 @@ int convertSeqToHIID (HIID &id,PyObject *list)
   PyObjectRef item;
   while( ( item = PyIter_Next(*iter) ) != 0 && !PyErr_Occurred() ) // new ref
   {
-    int aid = int( PyInt_AsLong(*item) );
+    long aid = PyLong_AsLong(*item);
+    if( !PyErr_Occurred() && aid != int(aid) )
+      throwError(Overflow,"hiid element out of range");
     if( !PyErr_Occurred() )
       id.add(AtomicID(aid));
   }
-- 
2.43.0


From fa940a30bce17d23674aa4b5fb976248c95b5039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 073/153] fix: arrays in foreign byte order were converted
 without swapping bytes

---
 OCTOPython/src/DataConv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index 6274161..f5d8b4e 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -312,7 +312,7 @@ int pyToArray (DMI::NumArray::Ref &arref,PyObject *pyobj)
   DMI::NumArray &arr = arref <<= createSubclass<DMI::NumArray>(pyobj);
   // make array object with guaranteed C-array properties. This takes
   // care of strides, etc. NumPy will only copy data if the input array is not suitable.
-  PyObjectRef pyarr_ref = PyArray_FromAny(pyobj,NULL,0,0,NPY_CARRAY_RO,NULL);
+  PyObjectRef pyarr_ref = PyArray_CheckFromAny(pyobj,NULL,0,0,NPY_CARRAY_RO|NPY_NOTSWAPPED,NULL);
   if( !pyarr_ref ) 
     throwErrorOpt(Type,"PyArray_FromAny fails, perhaps object is not an array");
   // figure out array shape
-- 
2.43.0


From 0e6f0b12d88fd4ba22e5c5244ff717f4345155ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 074/153] fix: large unsigned numbers became negative in Python

---
 OCTOPython/src/DataConv.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index f5d8b4e..e884785 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -720,10 +720,10 @@ PyObject * pyFromVec (const DMI::Vec &dv,int flags)
       extractField(PyBool_FromLong,as<long>())
     else if( type < Tpbool && type >= Tplong )
       extractField(PyInt_FromLong,as<long>())
-    else if( type <= Tpulong && type >= Tplonglong )
+    else if( type == Tplonglong )
       extractField(PyLong_FromLongLong,as<longlong>())
-    else if( type == Tpulonglong )
-      extractField(PyLong_FromLongLong,as<ulonglong>())
+    else if( type == Tpulong || type == Tpulonglong )
+      extractField(PyLong_FromUnsignedLongLong,as<ulonglong>())
     else if( type <= Tpfloat && type >= Tpldouble )
       extractField(PyFloat_FromDouble,as<double>())
     else if( type <= Tpfcomplex && type >= Tpdcomplex )
@@ -815,10 +815,10 @@ PyObject * pyFromArray (const DMI::NumArray &da,int flags)
       return PyBool_FromLong(hook.as<bool>());
     else if( type < Tpbool && type >= Tplong )
       return PyInt_FromLong(hook.as<long>());
-    else if( type <= Tpulong && type >= Tplonglong )
+    else if( type == Tplonglong )
       return PyLong_FromLongLong(hook.as<longlong>());
-    else if( type == Tpulonglong )
-      return PyLong_FromLongLong(hook.as<ulonglong>());
+    else if( type == Tpulong || type == Tpulonglong )
+      return PyLong_FromUnsignedLongLong(hook.as<ulonglong>());
     else if( type <= Tpfloat && type >= Tpldouble )
       return PyFloat_FromDouble(hook.as<double>());
     else if( type <= Tpfcomplex && type >= Tpdcomplex )
-- 
2.43.0


From 742ce0abc96af807b772da0a13bead2cc0ed4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 075/153] fix: record.values() returned items, popitem()
 unresolved references, and str() failed

---
 OCTOPython/src/dmi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/OCTOPython/src/dmi.py b/OCTOPython/src/dmi.py
index 363cef9..16c2dc3 100644
--- a/OCTOPython/src/dmi.py
+++ b/OCTOPython/src/dmi.py
@@ -289,11 +289,11 @@ class record (dict):
     return dict.items(self);
   def values (self):  
     self._resolve_all_lazy_refs();
-    return dict.items(self);
+    return dict.values(self);
   # itervalues(): we need to resolve all lazy refs first
   def itervalues (self):
     self._resolve_all_lazy_refs();
-    return getattr(dict, "itervalues", dict.items)(self);
+    return getattr(dict, "itervalues", dict.values)(self);
   # iteritems(): we need to resolve all lazy refs first
   def iteritems (self):
     self._resolve_all_lazy_refs();
@@ -365,7 +365,7 @@ class record (dict):
     items = [];
     for (key,value) in dictiter:
       items += ["%s=%s" % (key,str(value)) ];
-    return "{ " + string.join(items,', ') + " }";
+    return "{ " + ', '.join(items) + " }";
   # __repr__: official form
   def __repr__ (self):
     dictiter = iter(list(self.items()));
@@ -384,10 +384,10 @@ class record (dict):
     return value;
   # popitem: lazy refs resolved
   def popitem (self):
-    value = dict.popitem(self);
+    key,value = dict.popitem(self);
     if isinstance(value,lazy_objref):
       value = value.resolve();
-    return value;
+    return key,value;
   # field_names: list of dictionary keys  
   def field_names (self):
     "returns a list of field names, in underscore-separator format";
-- 
2.43.0


From c6d08377ab6039be8be9c97e4c9c80739d2a167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 076/153] fix: converting sequences of objects without a DMI
 type left a Python exception behind

---
 OCTOPython/src/DataConv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index e884785..90b9189 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -543,6 +543,7 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
               // actual type may be a subclass of basetype (e.g.
               // base is DMI::Record, actual type is Meq::Result)
               TypeId type = getDMIType(*item);
+              PyErr_Clear(); // not an error if there is none
               if( !type || basetype == Tplong )
                 type = basetype;
               // set sequence type if not set
-- 
2.43.0


From 69401f15dfa452c3fe9cf4308bca37a4fc618a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 077/153] fix: sequences of sequences of mixed types could not
 be converted from Python

---
 OCTOPython/src/DataConv.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index 90b9189..71a2e7d 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -565,6 +565,20 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
               }
             }
           }
+          // nested sequences may themselves turn into vectors or lists, and only
+          // vectors can go into a DMI::Vec, so these need to be converted first
+          std::vector<ObjRef> items;
+          if( !use_list && seqtype == TpDMIVec )
+          {
+            items.resize(len);
+            for( int i=0; i<len; i++ )
+            {
+              PyObjectRef item = PySequence_ITEM(obj,i); // new ref
+              pyToDMI(items[i],*item);
+              if( items[i]->objectType() != TpDMIVec )
+                use_list = true;
+            }
+          }
           // now, use list or vector as appropriate
           ObjRef seqref;
           if( use_list )
@@ -575,6 +589,11 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
             for( int i=0; i<len; i++ )
             {
               cdebug(4)<<objstr<<"converting seq element "<<i<<endl;
+              if( !items.empty() )
+              {
+                plist->addBack(items[i]);
+                continue;
+              }
               PyObjectRef item = PySequence_ITEM(obj,i); // new ref
               ObjRef itemref; 
               pyToDMI(itemref,*item);
@@ -593,6 +612,11 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
             for( int i=0; i<len; i++ )
             {
               cdebug(4)<<objstr<<"converting seq element "<<i<<endl;
+              if( !items.empty() )
+              {
+                pvec->put(i,items[i]);
+                continue;
+              }
               PyObjectRef item = PySequence_ITEM(obj,i); // new ref
               ObjRef dum;
               pyToDMI(dum,*item,seqbasetype,pvec,i);  // this mode causes an insert into vector
-- 
2.43.0


From 426038d5e79bd771482a0197a29b1fe93f3c64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 078/153] fix: hiid.as_str() failed for every separator in
 Python 3

---
 OCTOPython/src/octopython.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/OCTOPython/src/octopython.cc b/OCTOPython/src/octopython.cc
index 56b1e3e..17c889e 100644
--- a/OCTOPython/src/octopython.cc
+++ b/OCTOPython/src/octopython.cc
@@ -104,9 +104,15 @@ static PyObject * string_to_hiid (PyObject *, PyObject *args)
 static PyObject * hiid_to_string (PyObject *, PyObject *args)
 {
   PyObject *list;
+#if PY_MAJOR_VERSION < 3
   char sep = '.';
   if( !PyArg_ParseTuple(args, "O|c", &list,&sep) )
     return NULL;
+#else
+  int sep = '.';
+  if( !PyArg_ParseTuple(args, "O|C", &list,&sep) )
+    return NULL;
+#endif
   HIID id;
   try
   {
-- 
2.43.0


From e2e1f637fcc2a899c79f79084c0b2c6997074de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 079/153] fix: meq.split_request_id() returned dataset and
 domain id in the wrong order

---
 PyApps/src/Meq/meq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyApps/src/Meq/meq.py b/PyApps/src/Meq/meq.py
index 073563b..ce4ebb3 100644
--- a/PyApps/src/Meq/meq.py
+++ b/PyApps/src/Meq/meq.py
@@ -471,7 +471,7 @@ def requestid (domain_id=0,dataset_id=0,rqtype='ev'):
 
 def split_request_id (rqid):
   """Splits request ID into components. Returns domain and dataset IDs""";
-  return rqid[5],rqid[4];
+  return rqid[4],rqid[5];
 
 def request (cells=None,rqtype=None,dataset_id=0,domain_id=0,rqid=None,eval_mode=None,new_dataset=True,new_domain=False):
   # if cells is specified, default rqtype becomes 'ev'
-- 
2.43.0


From e3618c601e980e6a5a503e141ddecafa3811f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 080/153] fix: meq.request() with a given id made the following
 generated ids malformed or equal to the given one

---
 PyApps/src/Meq/meq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyApps/src/Meq/meq.py b/PyApps/src/Meq/meq.py
index ce4ebb3..3e8ec1f 100644
--- a/PyApps/src/Meq/meq.py
+++ b/PyApps/src/Meq/meq.py
@@ -500,8 +500,12 @@ def request (cells=None,rqtype=None,dataset_id=0,domain_id=0,rqid=None,eval_mode
       _meqdataset_id += 1;
     rqid = requestid(dataset_id=dataset_id,domain_id=domain_id,rqtype=rqtype);
   else:
-    _meqdataset_id = rqid[5] if len(rqid) > 5 else 0;
-    _meqdomain_id  = rqid[4] if len(rqid) > 4 else 0;
+    # dataset and domain ids generated later on must differ from the ones given here
+    rqid = make_hiid(rqid);
+    if len(rqid) > 5:
+      _meqdataset_id = max(_meqdataset_id,int(tuple.__getitem__(rqid,5))+1);
+    if len(rqid) > 4:
+      _meqdomain_id  = max(_meqdomain_id,int(tuple.__getitem__(rqid,4))+1);
   #print 'rqid',rqid;
   rec = _request_type(request_id=make_hiid(rqid));
   if cells is not None:
-- 
2.43.0


From ba587841a9e51533b011e885d2af523d774e3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 081/153] fix: arrays with an empty axis were refused when read
 from a data block

---
 DMI/src/NumArray.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 7e4fd46..0ea107d 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -493,11 +493,19 @@ int DMI::NumArray::fromBlock (BlockSet& set)
 
     // get shape from header & compute total size
     itsShape.resize(rank);
+    // all elements take up space in the block, except if some axis is empty
+    size_t maxsize = hsize, nel = 1;
+    for( uint i=0; i<rank; i++ )
+      if( !hdr->shape[i] )
+        maxsize = 0x7fffffff;
     itsSize = 1;
     for( uint i=0; i<rank; i++ )
     {
-      // all elements take up space in the block
-      FailWhen( hdr->shape[i] > hsize || itsSize*hdr->shape[i] > hsize,"malformed data block" );
+      if( hdr->shape[i] )
+      {
+        FailWhen( hdr->shape[i] > maxsize || nel*hdr->shape[i] > maxsize,"malformed data block" );
+        nel *= hdr->shape[i];
+      }
       itsSize *= itsShape[i] = hdr->shape[i];
     }
 
-- 
2.43.0


From 08fecb4bb03d6139a8a587e9ff8260010c6fe9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 082/153] fix: node numbers one beyond the end of the
 repository were accessed

---
 MEQ/src/Forest.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 713888a..71a2ce3 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -196,7 +196,7 @@ void Forest::initAll ()
 //##ModelId=3F5F5CA300E0
 int Forest::remove (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -220,7 +220,7 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -249,7 +249,7 @@ NodeFace & Forest::findNode (const string &name)
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
   int node_index = iter->second;
   // debug-fails here since name map should be consistent with repository
-  DbgFailWhen(node_index<=0 || node_index>int(nodes.size()),"invalid node index");
+  DbgFailWhen(node_index<=0 || node_index>=int(nodes.size()),"invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   DbgFailWhen(!ref.valid(),"invalid node index");
   return ref();
@@ -258,7 +258,7 @@ NodeFace & Forest::findNode (const string &name)
 //##ModelId=3F7048570004
 const NodeFace::Ref & Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   return nodes[node_index];
 }
-- 
2.43.0


From 49c545f342012e46d5ee72e6b150b64ffe8c0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 083/153] fix: executing a node that was not initialised
 terminated the process

---
 MEQ/src/Node.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..e3f6dfc 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -948,7 +948,6 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   pstate_lock_ = &state_lock;
 
   cdebug(3)<<"execute, request ID "<<req.id()<<": "<<req.sdebug(DebugLevel-1,"    ")<<endl;
-  FailWhen(internal_init_index_<0,"execute() called before init()");
   int retcode = 0;
   // this indicates the current stage (for exception handler)
   string stage;
@@ -960,6 +959,14 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     if( forest().abortFlag() )
       return exitAbort(RES_ABORT);
     timers_.total.start();
+    if( internal_init_index_<0 )
+    {
+      // this is not cached, since it can change with init()
+      ref <<= new Result(1);
+      VellSet & res = ref().setNewVellSet(0);
+      MakeFailVellSet(res,"execute() called before init()");
+      return exitExecute(RES_FAIL);
+    }
     if( forest().debugLevel()>1 )
       wstate()[FNewRequest].replace() <<= req;
     setExecState(CS_ES_REQUEST);
-- 
2.43.0


From ea2b3cf4fbf1379b655bbcebbb3d975e44c07de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 084/153] fix: creating a second batch of nodes failed for
 nodes with children that existed already

---
 MEQ/src/Node_init.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/Node_init.cc b/MEQ/src/Node_init.cc
index 8595a51..1af74fd 100644
--- a/MEQ/src/Node_init.cc
+++ b/MEQ/src/Node_init.cc
@@ -134,6 +134,9 @@ void Node::relinkParents ()
 
 void Node::init ()
 {
+  // do nothing if already initialized, i.e. by a previous batch of nodes
+  if( isInitialized() )
+    return;
   try
   {
     // set the parents
-- 
2.43.0


From e2fbaecdd7da506b251676c1efeb31600567017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 085/153] fix: a refused update of a node's state changed parts
 of it

---
 MEQ/src/Function.cc         |  2 +-
 MEQ/src/Node.cc             | 29 +++++++++++++++++++++++++++--
 MEQ/src/Node.h              |  5 +++++
 MEQ/src/NodeNursery.cc      |  2 +-
 MeqNodes/src/ZeroFlagger.cc |  4 ++--
 5 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 44e868c..85234bc 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -82,7 +82,7 @@ void Function::setStateImpl (DMI::Record::Ref &rec,bool initializing)
     else // must have Nchildren masks
     {
       if( fm.size() != uint(numChildren()) )
-        NodeThrow1("size of "+FFlagMask.toString()+" vector does not match number of children");
+        NodeThrow(FailWithCleanup,"size of "+FFlagMask.toString()+" vector does not match number of children");
       flagmask_ = fm;
     }
   }
diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index e3f6dfc..295234a 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -365,12 +365,37 @@ void Node::setStateImpl (DMI::Record::Ref &rec,bool initializing)
 }
 
 //##ModelId=3F5F445A00AC
+void Node::restoreState (DMI::Record::Ref &oldstate,const DMI::Record &rec,
+                         int control_status,int breakpoints,int breakpoints_ss,
+                         const std::vector<HIID> &groups)
+{
+  staterec_ = oldstate;
+  // these need not be present in the state record
+  wstate()[FControlStatus] = control_status;
+  wstate()[FBreakpoint] = breakpoints;
+  wstate()[FBreakpointSingleShot] = breakpoints_ss;
+  node_groups_ = groups;
+  // the record may contain an obsolete cache and request
+  wstate().remove(FCache);
+  wstate().remove(FRequest);
+  if( rec.hasField(FCache) )
+    cache_.clear();
+  setStateImpl(staterec_,true);
+}
+
 void Node::setState (DMI::Record::Ref &rec)
 {
   Thread::Mutex::Lock lock(stateMutex());
   // when initializing, we're called with our own state record, which
   // makes the rules somewhat different:
   bool initializing = ( rec == staterec_ );
+  // setStateImpl() may modify the state record as well as internal state, so
+  // keep what is needed to restore both of them
+  DMI::Record::Ref oldstate;
+  int old_cs = control_status_, old_bp = breakpoints_, old_bp_ss = breakpoints_ss_;
+  std::vector<HIID> old_groups = node_groups_;
+  if( !initializing )
+    oldstate = staterec_;
   cdebug(2)<<"setState(init="<<initializing<<"): "<<rec.sdebug(10)<<endl;
   // setStateImpl() is allowed to throw exceptions if something goes wrong.
   // This may leave the node with an inconsistency between the state record
@@ -390,13 +415,13 @@ void Node::setState (DMI::Record::Ref &rec)
   catch( std::exception &exc )
   {
     if( !initializing )
-      setStateImpl(staterec_,true);
+      restoreState(oldstate,rec,old_cs,old_bp,old_bp_ss,old_groups);
     ThrowMore(exc,"setState() failed");
   }
   catch( ... )
   {
     if( !initializing )
-      setStateImpl(staterec_,true);
+      restoreState(oldstate,rec,old_cs,old_bp,old_bp_ss,old_groups);
     Throw("setState() failed with unknown exception");
   }
   // success: merge record into state record
diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index 3c7071f..b43a57b 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -656,6 +656,11 @@ class Node : public NodeFace
     DMI::Record & wstate()
     { return staterec_(); }
 
+    //## Goes back to the given state after a state update failed
+    void restoreState (DMI::Record::Ref &oldstate,const DMI::Record &rec,
+                       int control_status,int breakpoints,int breakpoints_ss,
+                       const std::vector<HIID> &groups);
+
     //## sets the current request
     void setCurrentRequest (const Request &req);
 
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..62d3e53 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -90,7 +90,7 @@ void NodeNursery::setState (DMI::Record::Ref &rec,bool initializing)
   }
   // set child poll order
   std::vector<string> cpo;
-  if( rec[FChildPollOrder].get_vector(cpo) )
+  if( rec[FChildPollOrder].get_vector(cpo) || initializing )
     setChildPollOrder(cpo);
 }
 
diff --git a/MeqNodes/src/ZeroFlagger.cc b/MeqNodes/src/ZeroFlagger.cc
index 6b606de..c38ddb8 100644
--- a/MeqNodes/src/ZeroFlagger.cc
+++ b/MeqNodes/src/ZeroFlagger.cc
@@ -59,9 +59,9 @@ void ZeroFlagger::setStateImpl (DMI::Record::Ref &rec,bool initializing)
     else if( oper.type() == Tpstring )
       op = HIID(oper.as<string>());
     else
-      NodeThrow1("illegal "+FOper.toString()+" state field");
+      NodeThrow(FailWithCleanup,"illegal "+FOper.toString()+" state field");
     if( op.size() != 1 )
-      NodeThrow1("illegal "+FOper.toString()+"="+op.toString()+" state field");
+      NodeThrow(FailWithCleanup,"illegal "+FOper.toString()+"="+op.toString()+" state field");
     oper_ = op.front();
   }
   else if( initializing )
-- 
2.43.0


From 40e80859a52a6e5ad8b1673cf81beb45d69dc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 086/153] fix: MeqBessel ignored flag_mask

---
 MeqNodes/src/Bessel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/Bessel.cc b/MeqNodes/src/Bessel.cc
index 4dae80a..aefabeb 100644
--- a/MeqNodes/src/Bessel.cc
+++ b/MeqNodes/src/Bessel.cc
@@ -40,7 +40,7 @@ Bessel::~Bessel()
 
 void Bessel::setStateImpl (DMI::Record::Ref &rec,bool initializing)
 {
-  Node::setStateImpl(rec,initializing);
+  Function::setStateImpl(rec,initializing);
 
   if(rec[FOrder].get(order_,initializing)) {
 #ifdef DEBUG
-- 
2.43.0


From fe386fb03da5322a2f2f2df8662796d7f8cc5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 087/153] fix: reduction axes that were refused by a node
 remained in use

---
 MeqNodes/src/ReductionFunction.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 1c7cf57..f42a6eb 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -71,6 +71,12 @@ void ReductionFunction::setStateImpl (DMI::Record::Ref& rec, bool initializing)
       FailWhen(numChildren()>1,"cannot use reduction axes when multiple children are present");
     }
   }
+  else if( initializing )
+  {
+    has_axes_ids_ = false;
+    reduction_axes_.clear();
+    reduction_axes_ids_.clear();
+  }
 }
 
 // helper function: checks if a flag vells is fully flagged with a given mask,
-- 
2.43.0


From 5664d7826430ee4c64090f0ccc4e14f996e65d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 088/153] fix: MeqReqMux returned no result at all when its
 designated child failed

---
 MeqNodes/src/ReqMux.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/ReqMux.cc b/MeqNodes/src/ReqMux.cc
index b9416ca..a87d4b0 100644
--- a/MeqNodes/src/ReqMux.cc
+++ b/MeqNodes/src/ReqMux.cc
@@ -65,8 +65,12 @@ int ReqMux::pollChildren (Result::Ref &resref,
   // was explicitly set)
   if( retcode&(RES_FAIL|RES_MISSING) )
     return retcode;
-  else
-    return children().childRetcode(which_result_);
+  // a failed result of the designated child becomes our own result; with a 
+  // FAIL code, getResult() will not be called to return it
+  int code = children().childRetcode(which_result_);
+  if( code&RES_FAIL )
+    resref = childres[which_result_];
+  return code;
 }
 
 int ReqMux::discoverSpids (Result::Ref &resref,
-- 
2.43.0


From 6e9658a3043313236af2fc2534ebcce86cbcff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 089/153] fix: a failure by exception was cached without
 dependencies

---
 MEQ/src/Node.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 295234a..98aeb31 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1213,6 +1213,9 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   try
   {
     lock.relock(execCond());
+    // an exception cuts the accumulation of dependencies short, so the fail
+    // must be assumed to depend on everything
+    retcode |= (1<<RQIDM_NBITS)-1;
     ret = cacheResult(ref,req,retcode|RES_FAIL) | RES_UPDATED;
   }
   catch( ... )
-- 
2.43.0


From 6bddc0643165803c781c63ea0bf864c6a557ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 090/153] fix: MeqSum, MeqProduct and MeqNElements of a
 constant kept the result of an earlier number of cells

---
 MeqNodes/src/NElements.h | 6 +++++-
 MeqNodes/src/Product.h   | 6 +++++-
 MeqNodes/src/Sum.h       | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/NElements.h b/MeqNodes/src/NElements.h
index 0d4fad1..a05453f 100644
--- a/MeqNodes/src/NElements.h
+++ b/MeqNodes/src/NElements.h
@@ -39,7 +39,11 @@ public:
   // with multiple children
   NElements ()
     : ReductionFunction(1)
-  {}
+  {
+    // the result depends on the number of cells even if the child is constant
+    const HIID symdeps[] = { AidDomain,AidResolution };
+    setActiveSymDeps(symdeps,2);
+  }
 
   virtual TypeId objectType() const
   { return TpMeqNElements; }
diff --git a/MeqNodes/src/Product.h b/MeqNodes/src/Product.h
index 4c5ca0e..829488a 100644
--- a/MeqNodes/src/Product.h
+++ b/MeqNodes/src/Product.h
@@ -37,7 +37,11 @@ class Product : public ReductionFunction
 public:
   Product ()
     : ReductionFunction(1)
-  {}
+  {
+    // the result depends on the number of cells even if the child is constant
+    const HIID symdeps[] = { AidDomain,AidResolution };
+    setActiveSymDeps(symdeps,2);
+  }
 
   virtual TypeId objectType() const
   { return TpMeqProduct; }
diff --git a/MeqNodes/src/Sum.h b/MeqNodes/src/Sum.h
index 3184fe8..fdf12a0 100644
--- a/MeqNodes/src/Sum.h
+++ b/MeqNodes/src/Sum.h
@@ -37,7 +37,11 @@ class Sum : public ReductionFunction
 public:
   Sum ()
     : ReductionFunction(1)
-  {}
+  {
+    // the result depends on the number of cells even if the child is constant
+    const HIID symdeps[] = { AidDomain,AidResolution };
+    setActiveSymDeps(symdeps,2);
+  }
 
   virtual TypeId objectType() const
   { return TpMeqSum; }
-- 
2.43.0


From 384725eb9c581ed71067db957d9ad4d1aabcdb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 091/153] fix: a cached failure with derivatives was returned
 to requests for values only

---
 MEQ/src/Node.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 98aeb31..c778784 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -582,7 +582,8 @@ bool Node::getCachedResult (int &retcode,Result::Ref &ref,const Request &req)
       match = true;
     }
     // (3b) last special case: E0 requests match E1/E2 cache, but derivatives are stripped off
-    else if( diffmask == RequestType::DEPMASK_TYPE &&
+    // (a fail does not match, since it may be due to the derivatives)
+    else if( diffmask == RequestType::DEPMASK_TYPE && !(cache_.rescode&RES_FAIL) &&
              req.evalMode() == 0 &&
              RequestType::evalMode(cache_.rqid) > 0 )
     {
-- 
2.43.0


From d44a9d7f5319a6949b791201934ea8306eb3c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 092/153] fix: MeqReqSeq turned an empty request id, which
 forces a recalculation, into one that matches caches

---
 MeqNodes/src/ReqSeq.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/ReqSeq.cc b/MeqNodes/src/ReqSeq.cc
index 2919fbf..7ab1317 100644
--- a/MeqNodes/src/ReqSeq.cc
+++ b/MeqNodes/src/ReqSeq.cc
@@ -86,8 +86,9 @@ int ReqSeq::pollChildren (Result::Ref &resref,
   for( int ichild=0; ichild<numChildren(); ichild++ )
   {
     Result::Ref child_res;
-    // increment sequence ID for subsequent children
-    if( ichild && seq_depmask_ )
+    // increment sequence ID for subsequent children; an empty ID stays empty,
+    // since this is what forces all nodes to recalculate
+    if( ichild && seq_depmask_ && !rqid.empty() )
     {
       RqId::incrSubId(rqid,seq_depmask_);
       reqref().setId(rqid);
-- 
2.43.0


From 170940b5b41782f04659be71e0b6f05d474465ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 093/153] fix: MeqModRes turned an empty request id, which
 forces a recalculation, into one that matches caches

---
 MeqNodes/src/ModRes.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/MeqNodes/src/ModRes.cc b/MeqNodes/src/ModRes.cc
index f856a0b..f3767eb 100644
--- a/MeqNodes/src/ModRes.cc
+++ b/MeqNodes/src/ModRes.cc
@@ -268,12 +268,16 @@ int ModRes::pollChildren (Result::Ref &resref,
 		}
     //FIXME: can cache the current cells
     // update request id according to symdeps
+    // (an empty id stays empty, since this is what forces all nodes to recalculate)
     RequestId newid = request.id();
-    if( res_index_ )
-      RqId::setSubId(newid,res_depmask_,res_index_);
-    else
-      RqId::incrSubId(newid,res_depmask_);
-    newreq().setId(newid);
+    if( !newid.empty() )
+    {
+      if( res_index_ )
+        RqId::setSubId(newid,res_depmask_,res_index_);
+      else
+        RqId::incrSubId(newid,res_depmask_);
+      newreq().setId(newid);
+    }
     return Node::pollChildren(resref,childres,newreq);
 
   } else {
-- 
2.43.0


From 769b16902aa19be2985fe64204de2495ffffb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 094/153] fix: changing the segments of a grid changed them in
 its copies, too

---
 MEQ/src/Cells.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 89b7e0c..7d3d0d2 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -306,11 +306,9 @@ void Cells::setNumSegments (int iaxis,int nseg)
   Thread::Mutex::Lock lock(mutex());
   Record &segments = getSubrecord(FSegments);
   Record::Hook seghook(segments,Axis::axisId(iaxis));
-  Record *pseg;
-  if( seghook.exists() )
-    pseg = seghook.as_wp<Record>();
-  else
-    seghook <<= pseg = new Record;
+  // always a new record: an existing one may be shared with copies of this
+  Record *pseg = new Record;
+  seghook.replace() <<= pseg;
   setRecVector(seg_start_[iaxis],(*pseg)[FStartIndex],nseg);
   setRecVector(seg_end_  [iaxis],(*pseg)[FEndIndex],nseg);
 }
-- 
2.43.0


From 1158a5804dc8821913c3b477dd11507b159432bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 095/153] fix: setting the cells of an axis from arrays of the
 same grid used freed memory

---
 MEQ/src/Cells.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 7d3d0d2..d16deee 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -257,9 +257,11 @@ void Cells::setCells (int iaxis,const LoVec_double &cen,const LoVec_double &size
   Thread::Mutex::Lock lock(mutex());
   int num = cen.size();
   Assert(size.size() == num);
+  // the arguments may be our own arrays, which setNumCells() replaces
+  LoVec_double cen1(cen.copy()),size1(size.copy());
   setNumCells(iaxis,num);
-  grid_[iaxis] = cen;
-  cell_size_[iaxis] = size;
+  grid_[iaxis] = cen1;
+  cell_size_[iaxis] = size1;
   // recomputes the segments
   recomputeSegments(iaxis);
 }
@@ -268,8 +270,9 @@ void Cells::setCells (int iaxis,const LoVec_double &cen,double size)
 {
   Thread::Mutex::Lock lock(mutex());
   int num = cen.size();
+  LoVec_double cen1(cen.copy());
   setNumCells(iaxis,num);
-  grid_[iaxis] = cen;
+  grid_[iaxis] = cen1;
   cell_size_[iaxis] = size;
   // recomputes the segments
   recomputeSegments(iaxis);
-- 
2.43.0


From b80038532e38052df214c0e67747da1645ab3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 096/153] fix: combining grids at the lower resolution dropped
 axes defined in only one of them

---
 MEQ/src/Cells.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index d16deee..d6b5f32 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -114,7 +114,9 @@ Cells::Cells (const Cells &a,const Cells &b,int resample)
   // the other
   for( int iaxis=0; iaxis<Axis::MaxAxis; iaxis++ )
   {
-    const Cells &c = (a.ncells(iaxis) > b.ncells(iaxis)) ^ (resample>0) ? b : a;
+    int na = a.ncells(iaxis), nb = b.ncells(iaxis);
+    // an axis without cells in one grid is taken from the other
+    const Cells &c = na && nb ? ( (na>nb) ^ (resample>0) ? b : a ) : ( na ? a : b );
     int np = c.ncells(iaxis);
     setNumCells(iaxis,np);
     if( np )
-- 
2.43.0


From 9dcf33f4cad5bee6486dfab217d79b6826e55fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 097/153] fix: comparing grids with differing numbers of cells
 read beyond the shorter axis

---
 MEQ/src/Cells.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index d6b5f32..bb978d3 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -564,7 +564,8 @@ bool Cells::operator== (const Cells& that) const
     return false;
   // check axes one by one
   for( int i=0; i<Axis::MaxAxis; i++ )
-    if( any( center(i) != that.center(i) ) ||
+    if( ncells(i) != that.ncells(i) ||
+        any( center(i) != that.center(i) ) ||
         any( cellSize(i) != that.cellSize(i) ) )
       return false;
   // everything compared successfully
-- 
2.43.0


From 9dc260a2059a1175820eb9ac7669e26c32b4426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 098/153] fix: two grids without a domain compared as different

---
 MEQ/src/Cells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index bb978d3..0308f08 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -542,7 +542,7 @@ void Cells::superset (Cells::Ref &ref,const Cells &a,const Cells &b)
 int Cells::compare (const Cells &that) const
 {
   if( !domain_.valid() ) // are we empty?
-    return !that.domain_.valid(); // equal if that is empty too, else not
+    return that.domain_.valid(); // equal if that is empty too, else not
   // check for equality of domains & shapes
   if( !that.domain_.valid() ||
       domain() != that.domain() )
-- 
2.43.0


From 2266d28abd6f0ab05eccfd5feea6d84155ee0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 099/153] fix: resampled grids compared as different from
 identical ones, as undefined axes were added to them

---
 MEQ/src/Cells.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 0308f08..0910697 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -112,7 +112,7 @@ Cells::Cells (const Cells &a,const Cells &b,int resample)
   // ***BUG*** here, we simply assume everything (cell positions, sizes)
   // match up, and treat one cells as an integration or upsampling of
   // the other
-  for( int iaxis=0; iaxis<Axis::MaxAxis; iaxis++ )
+  for( int iaxis=0; iaxis<std::max(a.rank(),b.rank()); iaxis++ )
   {
     int na = a.ncells(iaxis), nb = b.ncells(iaxis);
     // an axis without cells in one grid is taken from the other
@@ -137,7 +137,7 @@ Cells::Cells (const Cells &other,const int ops[Axis::MaxAxis],const int args[Axi
   init(&other.domain(),0);
   shape_.resize(other.shape_.size());
   defined_ = other.defined_;
-  for( int iaxis=0; iaxis<Axis::MaxAxis; iaxis++ )
+  for( int iaxis=0; iaxis<other.rank(); iaxis++ )
   {
     int op=ops[iaxis],arg=args[iaxis];
     int np = other.ncells(iaxis);
-- 
2.43.0


From cf5ceda5564577fa27ba8278bfd266ec9677ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:30 +0000
Subject: [PATCH 100/153] fix: undefined axes were added to an empty grid when
 it was restored, so that it compared as different from identical ones

---
 MEQ/src/Cells.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 0910697..bbfc656 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -452,7 +452,12 @@ void Cells::validateContent (bool)
       // make empty cells
       domain_.detach();
       for( int i=0; i<Axis::MaxAxis; i++ )
-        setNumCells(i,0);
+      {
+        grid_[i].free();
+        cell_size_[i].free();
+        seg_start_[i].free();
+        seg_end_[i].free();
+      }
     }
   }
   catch( std::exception &err )
-- 
2.43.0


From 403e984832807f9bb5d826937979405ed230ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 101/153] fix: polynomials without a domain, or along other
 axes than 0 and 1, were cut off at a wrong domain

---
 MEQ/src/Polc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 31378d9..76ef4bf 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -183,14 +183,16 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       FailWhen(!cells.isDefined(iaxis),
             "Meq::Polc: axis " + Axis::axisId(iaxis).toString() +
             " is not defined in Cells");
-      if(cells.domain().start(i)<domain().start(i) ||cells.domain().end(i)>domain().end(i) )
+      // an axis missing in our domain means that we are valid along all of it
+      if( domain().isDefined(iaxis) &&
+          (cells.domain().start(iaxis)<domain().start(iaxis) || cells.domain().end(iaxis)>domain().end(iaxis)) )
 	{
 	  LoVec_double tempgrid = ( cells.center(iaxis));
 	  int k=0;
-	  while(tempgrid(k)< domain().start(i) && k < tempgrid.size()){k++;}
+	  while(k < tempgrid.size() && tempgrid(k)< domain().start(iaxis)){k++;}
 	  int firstk=k;
 	  k=tempgrid.size()-1;
-	  while(tempgrid(k)>domain().end(i) && k > 0){k--;}
+	  while(k >= 0 && tempgrid(k)>domain().end(iaxis)){k--;}
 	  int lastk=k;
 	  //reduce grid, such that it fits on domain of this funklet
 	  if(lastk<firstk) return;
-- 
2.43.0


From 5b4e9cab617e745b44ec453cde4c39b275c48d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 102/153] fix: the result of a polynomial along axes in
 descending order was transposed

---
 MEQ/src/Polc.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 76ef4bf..af1e75e 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -326,14 +326,20 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
   }
   // Create matrix for the main value and keep a pointer to its storage
   double* value = vs.setValue(new Vells(double(0),res_shape,true)).realStorage();
+  // The axis with the higher index varies fastest in the result, so work out
+  // the strides of our two axes
+  FailWhen(getAxis(0) == getAxis(1),"Meq::Polc: both axes are the same");
+  const bool swapped = getAxis(0) > getAxis(1);
+  const int stridex = swapped ? 1 : ndy;
+  const int stridey = swapped ? ndx : 1;
   // Iterate over all cells in the domain.
-  // The Y index iterates faster, hence the outer loop is over j over X values
   for (int j=0; j<ndx; j++)
   {
     double valx = grid[0](j);
     for (int i=0; i<ndy; i++)  // inner loop: i over Y values
     {
       double valy = grid[1](i);
+      const int ires = j*stridex + i*stridey;
       const double* coeff = coeffData;
       double total = 0;
       double powx = 1;
@@ -363,10 +369,8 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
           for (int iy=0; iy<ncy; iy++) {
             double d = perts[ik] * powersy[iy] * powx;
             for( int ipert=0; ipert<makePerturbed; ipert++,d=-d ) {
-              if( pertValPtr[ipert][ik] ) {
-                *(pertValPtr[ipert][ik]) = total + d;
-                pertValPtr[ipert][ik]++;
-              }
+              if( pertValPtr[ipert][ik] )
+                pertValPtr[ipert][ik][ires] = total + d;
             }
             ik++;
           }
@@ -374,7 +378,7 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
         }
       }
       cdebug(4)<<"value  "<<i<<","<<j<<" ("<<valx<<","<<valy<<") : "<<total<<endl;
-      *value++ = total;
+      value[ires] = total;
     } // endfor(i) over cells
   } // endfor(j) over cells
 
-- 
2.43.0


From 47a014b356d824a30e5c6c09c28ee407867a8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 103/153] fix: perturbing a polynomial with more than ten
 coefficients along its second axis overflowed a buffer

---
 MEQ/src/Polc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index af1e75e..0e031ed 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -357,7 +357,7 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       }
       if( makePerturbed )
       {
-        double powersy[10];
+        double powersy[ncy];
         double powy = 1;
         for (int iy=0; iy<ncy; iy++) {
           powersy[iy] = powy;
-- 
2.43.0


From e8a681bd38d8eb5ec3225edff193687ee6678922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 104/153] fix: the second set of perturbed values of a spline
 had the point itself moved in the wrong direction

---
 MEQ/src/Spline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Spline.cc b/MEQ/src/Spline.cc
index 9c1952c..02f8666 100644
--- a/MEQ/src/Spline.cc
+++ b/MEQ/src/Spline.cc
@@ -292,7 +292,7 @@ double Spline::get_value(const double *x,const int ipert,const int perturb,const
    double fx;
    if(perturb>=0){
      fx=y[idx_x] + Ap[ipert][perturb][idx_x]*(delta_x) +Bp[ipert][perturb][idx_x]*(delta_x*delta_x)+Cp[ipert][perturb][idx_x]*(delta_x*delta_x*delta_x);
-     if(idx_x == perturb) fx += pert; //add perturbation to y[idx_x]
+     if(idx_x == perturb) fx += ipert ? -pert : pert; //add perturbation to y[idx_x]
    }
    else
      fx=y[idx_x] + A[idx_x]*(delta_x) +B[idx_x]*(delta_x*delta_x)+C[idx_x]*(delta_x*delta_x*delta_x);
-- 
2.43.0


From 87cfb9d15dc7a8c0bbe15d917ce99234a553dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 105/153] fix: a spline on a grid of a single cell was
 evaluated at 0 instead of at that cell

---
 MEQ/src/Spline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Spline.cc b/MEQ/src/Spline.cc
index 02f8666..f637afa 100644
--- a/MEQ/src/Spline.cc
+++ b/MEQ/src/Spline.cc
@@ -225,7 +225,7 @@ void Spline::do_evaluate (VellSet &vs,const Cells &cells,
       {//get indices
 	idx[axis]=0;
 	valx[axis]=0;
-	if(res_shape[axis]>1)
+	if(grid[axis].size()>0)
 	  {
 	    idx[axis]=shapes%res_shape[axis];
 	    shapes-=idx[axis];
-- 
2.43.0


From c096062b658378837e6bb862ddbe66740364bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 106/153] fix: a part of a composite function that is zero in a
 single cell got the default value instead

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 8751bb6..bc217df 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -289,7 +289,7 @@ void ComposedPolc::validateContent (bool recursive)
       if(!isConstant)
 	{
 	  partfunk.evaluate(partvs,cells,makePerturbed);
-	  if(partvs.isNull ()) continue;
+	  if(!partvs.hasValue()) continue;
 	}
       int maxnx=1;
       int maxny=1;
-- 
2.43.0


From f2aac881d64dbf84da95a9f70f4ae7d1948db69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 107/153] fix: a copied composite function lost its default
 value

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index bc217df..a853d37 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -45,7 +45,7 @@ namespace Meq {
 
 
   ComposedPolc::ComposedPolc (const ComposedPolc &other,int flags,int depth) :
-    Polc(other,flags,depth),default_value_(0),nr_funklets_(other.nr_funklets_)
+    Polc(other,flags,depth),default_value_(other.default_value_),nr_funklets_(other.nr_funklets_)
   {
     (*this)[FClass]=objectType().toString();
     for(int i=0;i<Axis::MaxAxis;i++)
-- 
2.43.0


From 0244f4a076a0cbd36711fc61ac5613f2a25cad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 108/153] fix: a log-polynomial along an axis that is not in
 its axis list used an uninitialised scale

---
 MEQ/src/PolcLog.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/PolcLog.cc b/MEQ/src/PolcLog.cc
index 88b241d..f374799 100644
--- a/MEQ/src/PolcLog.cc
+++ b/MEQ/src/PolcLog.cc
@@ -127,7 +127,7 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
 
   void PolcLog::axis_function(int axis, LoVec_double &grid) const
   {
-    double  axis_scale;
+    double  axis_scale = 0; // axes not in the list are linear
     const Field * fld = Record::findField(FAxisList);
     const DMI::Record::Ref *axisArray = (fld) ? &(fld->ref().ref_cast<DMI::Record>()) : 0;
     if(axisArray){
-- 
2.43.0


From 4ca506171f975cda83fe899d397bd3bd29168910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 109/153] fix: a composite of functions that are constant along
 an axis was extended beyond its domain along that axis

---
 MEQ/src/ComposedPolc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index a853d37..882d704 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -210,7 +210,12 @@ void ComposedPolc::validateContent (bool recursive)
 
 
     for(int iaxis=0;iaxis<nr_axis;iaxis++)
-      if(axisHasShape_[iaxis])
+      // cells outside of our domain get the default value
+      if( cells.isDefined(iaxis) &&
+          ( axisHasShape_[iaxis] ||
+            ( domain().isDefined(iaxis) &&
+              ( min(centergrid[iaxis]) < domain().start(iaxis) ||
+                max(centergrid[iaxis]) > domain().end(iaxis) ) ) ) )
 	res_shape[iaxis]=cells.ncells(iaxis);
       else
     	res_shape[iaxis]=1;
-- 
2.43.0


From 2e61d8435b6cfe18753af305d488f98d52691d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 110/153] fix: perturbed values of a composite function were
 wrong in parts of a single cell, except for the first coefficient

---
 MEQ/src/ComposedPolc.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 882d704..4193458 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -252,7 +252,7 @@ void ComposedPolc::validateContent (bool recursive)
 
       //if funklet is constant, we dont have to do all the work, just fill the fitting vells
       double constpart=0;
-      double constpert[2];
+      double constpert[2][nr_spids+1];
       if(partfunk.isConstant())
 	{
 	  constpart= partfunk.getCoeff0();
@@ -260,7 +260,8 @@ void ComposedPolc::validateContent (bool recursive)
 	    {
 	      double d = partfunk.getPerturbation(0);
 	      for(int ipert=0;ipert<makePerturbed;ipert++,d=-d )
-		constpert[ipert]=constpart+d;
+		for(int ispid=0;ispid<nr_spids;ispid++)
+		  constpert[ipert][ispid] = ispid ? constpart : constpart+d;
 	    }
 	}
       else isConstant=0;
@@ -328,7 +329,8 @@ void ComposedPolc::validateContent (bool recursive)
 	    for(int ipert=0;ipert<makePerturbed;ipert++){
 	      if(partvells.isScalar())
 		{
-		  constpert[ipert] = (partvs.getPerturbedValue(0,ipert)).getScalar<double>();
+		  for(int ispid=0;ispid<nr_spids;ispid++)
+		    constpert[ipert][ispid] = (partvs.getPerturbedValue(ispid,ipert)).getScalar<double>();
 		}
 	      else
 		{
@@ -356,7 +358,8 @@ void ComposedPolc::validateContent (bool recursive)
 	  fill_const_value(nr_axis,starti,endi,res_shape,val,0,value,constpart);
 	  if( makePerturbed )
 	    for( int ipert=0; ipert<makePerturbed; ipert++ )
-	      fill_const_value(nr_axis,starti,endi,res_shape,val,0, pertValPtr[ipert][0],constpert[ipert]);
+	      for( int ispid=0; ispid<nr_spids; ispid++ )
+	        fill_const_value(nr_axis,starti,endi,res_shape,val,0, pertValPtr[ipert][ispid],constpert[ipert][ispid]);
 	}
       else
 	{// not constant assume freq,time polc for now
-- 
2.43.0


From 26bb4ae32d9888a59d2e6c0be83e9662b1448a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 111/153] fix: composite functions could not be evaluated with
 two sets of perturbations

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 4193458..a33ea1e 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -291,7 +291,7 @@ void ComposedPolc::validateContent (bool recursive)
 
 
 
-      VellSet partvs;
+      VellSet partvs(0,makePerturbed);
       if(!isConstant)
 	{
 	  partfunk.evaluate(partvs,cells,makePerturbed);
-- 
2.43.0


From e52055e048018dce4748040868e7e97de623b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:33 +0000
Subject: [PATCH 112/153] fix: reducing the rank of a function's coefficients
 mixed up coefficients

---
 MEQ/src/Polc.cc   | 3 +++
 MEQ/src/Spline.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 0e031ed..9917a74 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -666,6 +666,9 @@ void Polc::setCoeffShape(const LoShape & shape){
 	//dont fill this one
 	//we can go faster in case we are outside the scope of the new array
       }
+    for(int j=ranknew;j<rank;j++)
+      if(i[j]>0) // along an axis that is dropped
+	element=Nnew;
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
diff --git a/MEQ/src/Spline.cc b/MEQ/src/Spline.cc
index f637afa..58c13cc 100644
--- a/MEQ/src/Spline.cc
+++ b/MEQ/src/Spline.cc
@@ -396,6 +396,9 @@ void Spline::setCoeffShape(const LoShape & shape){
 	//dont fill this one
 	//we can go faster in case we are outside the scope of the new array
       }
+    for(int j=ranknew;j<rank;j++)
+      if(i[j]>0) // along an axis that is dropped
+	element=Nnew;
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
-- 
2.43.0


From 83f0cfa2fb92337da111b98ac655c7265c8e1d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 113/153] fix: increasing the rank of a function's coefficients
 moved them to the wrong axis

---
 MEQ/src/Polc.cc   | 2 ++
 MEQ/src/Spline.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 9917a74..84220ec 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -669,6 +669,8 @@ void Polc::setCoeffShape(const LoShape & shape){
     for(int j=ranknew;j<rank;j++)
       if(i[j]>0) // along an axis that is dropped
 	element=Nnew;
+    for(int j=rank;j<ranknew;j++) // at the start of an axis that is added
+      element*=shape[j];
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
diff --git a/MEQ/src/Spline.cc b/MEQ/src/Spline.cc
index 58c13cc..afe12d3 100644
--- a/MEQ/src/Spline.cc
+++ b/MEQ/src/Spline.cc
@@ -399,6 +399,8 @@ void Spline::setCoeffShape(const LoShape & shape){
     for(int j=ranknew;j<rank;j++)
       if(i[j]>0) // along an axis that is dropped
 	element=Nnew;
+    for(int j=rank;j<ranknew;j++) // at the start of an axis that is added
+      element*=shape[j];
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
-- 
2.43.0


From 490d37782a6656ba6e8dadcd74c4a8b55451f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 114/153] fix: the solve domain of a function along other axes
 than 0 and 1 was fitted to the wrong axes of its domain

---
 MEQ/src/Polc.cc    | 46 ++++++++++++++--------
 MEQ/src/PolcLog.cc | 96 +++++++++++++++++++++++++---------------------
 2 files changed, 82 insertions(+), 60 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 84220ec..20e6395 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -449,14 +449,21 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
   if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain.start(axisi)*valDomain.end(axisi)-
+      const int nax=std::min(rank(),MaxPolcRank);
+      std::vector<double> newoffsets(nax);
+      std::vector<double> newscales(nax);
+      for(int i=0;i<nax;i++){
+	const int axisi=getAxis(i);
+	if(!valDomain.isDefined(axisi) || !solveDomain.isDefined(axisi)) { // keep as is
+	  newoffsets[i]=getOffset(i);
+	  newscales[i]=getScale(i)==0 ? 1. : getScale(i);
+	  continue;
+	}
+	newoffsets[i] = solveDomain.start(axisi)*valDomain.end(axisi)-
 	  solveDomain.end(axisi)*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain.start(axisi)-solveDomain.end(axisi);
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain.end(axisi) - solveDomain.start(axisi);
+	newoffsets[i] /= solveDomain.start(axisi)-solveDomain.end(axisi);
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain.end(axisi) - solveDomain.start(axisi);
 
       }
      transformCoeff(newoffsets,newscales);
@@ -473,14 +480,21 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
     if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain[0]*valDomain.end(axisi)-
+      const int nax=std::min(rank(),MaxPolcRank);
+      std::vector<double> newoffsets(nax);
+      std::vector<double> newscales(nax);
+      for(int i=0;i<nax;i++){
+	const int axisi=getAxis(i);
+	if(!valDomain.isDefined(axisi)) { // valid everywhere, keep as is
+	  newoffsets[i]=getOffset(i);
+	  newscales[i]=getScale(i)==0 ? 1. : getScale(i);
+	  continue;
+	}
+	newoffsets[i] = solveDomain[0]*valDomain.end(axisi)-
 	  solveDomain[1]*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain[0]-solveDomain[1];
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain[1] - solveDomain[0];
+	newoffsets[i] /= solveDomain[0]-solveDomain[1];
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain[1] - solveDomain[0];
 
       }
      transformCoeff(newoffsets,newscales);
@@ -544,8 +558,8 @@ void Polc::transformCoeff(const std::vector<double> & newoffsets,const std::vect
   double C[NX][NY];
   double oldOffset[MaxPolcRank];
   double oldScale[MaxPolcRank];
-  double diffOffset[MaxPolcRank];
-  double diffScale[MaxPolcRank];
+  double diffOffset[MaxPolcRank]={0.,0.};
+  double diffScale[MaxPolcRank]={1.,1.};
 
 
   double* coeff = static_cast<double*>(coeffWr().getDataPtr());
diff --git a/MEQ/src/PolcLog.cc b/MEQ/src/PolcLog.cc
index f374799..873e634 100644
--- a/MEQ/src/PolcLog.cc
+++ b/MEQ/src/PolcLog.cc
@@ -161,47 +161,51 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
   
   
     const Domain &valDomain =  domain(); //validity domain
-    std::vector<double> axis_vector_(2,1.); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
+    std::vector<double> axis_vector_(Axis::MaxAxis,1.); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
     const Field * fld = Record::findField(FAxisList);
     const DMI::Record::Ref *axisArray = (fld) ? &(fld->ref().ref_cast<DMI::Record>()) : 0;
     if(axisArray){
-        for(int i=0;i<2;i++){
+        for(int i=0;i<Axis::MaxAxis;i++){
 	  axis_vector_[i]=0;
 	  (*axisArray)[Axis::axisId(i)].get(axis_vector_[i],0.);
 	  
 	}
     }
     
-    if(fabs(axis_vector_[0])&&(axis_vector_[0]*valDomain.start(0)<=0||axis_vector_[0]*valDomain.end(0)<=0))//stop trying to take log of 0 or negative value!!, nothing
+    const int nax=std::min(rank(),MaxPolcRank);
+    for(int i=0;i<nax;i++){
+      const int axisi=getAxis(i);
+      if(valDomain.isDefined(axisi)&&fabs(axis_vector_[axisi])&&(axis_vector_[axisi]*valDomain.start(axisi)<=0||axis_vector_[axisi]*valDomain.end(axisi)<=0))//stop trying to take log of 0 or negative value!!, nothing
       {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(0)<<endl;
-	Polc::changeSolveDomain(solveDomain);
-	return;
-      }
-    if(fabs(axis_vector_[1])&&(axis_vector_[1]*valDomain.start(1)<=0||axis_vector_[1]*valDomain.end(1)<=0))//stop trying to take log of 0 or negative value!!, nothing
-      {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(1)<<endl;
+	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(axisi)<<endl;
 	Polc::changeSolveDomain(solveDomain);
 	return;
       }
+    }
     
     
-    std::vector<double> newoffsets(2);
-    std::vector<double> newscales(2);
-    for(int axisi=0;axisi<2;axisi++){
+    std::vector<double> newoffsets(nax);
+    std::vector<double> newscales(nax);
+    for(int i=0;i<nax;i++){
+      const int axisi=getAxis(i);
+      if(!valDomain.isDefined(axisi) || !solveDomain.isDefined(axisi)) { // keep as is
+	newoffsets[i]=getOffset(i);
+	newscales[i]=getScale(i)==0 ? 1. : getScale(i);
+	continue;
+      }
       if(fabs(axis_vector_[axisi])) {
-	newoffsets[axisi] = solveDomain.start(axisi)*log(valDomain.end(axisi)/axis_vector_[axisi])-
+	newoffsets[i] = solveDomain.start(axisi)*log(valDomain.end(axisi)/axis_vector_[axisi])-
 	  solveDomain.end(axisi)*log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newoffsets[axisi] /= log(10.)*(solveDomain.start(axisi)-solveDomain.end(axisi));
-	newscales[axisi] = log(valDomain.end(axisi)/axis_vector_[axisi]) - log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newscales[axisi] /= log(10.)*(solveDomain.end(axisi) - solveDomain.start(axisi));
+	newoffsets[i] /= log(10.)*(solveDomain.start(axisi)-solveDomain.end(axisi));
+	newscales[i] = log(valDomain.end(axisi)/axis_vector_[axisi]) - log(valDomain.start(axisi)/axis_vector_[axisi]);
+	newscales[i] /= log(10.)*(solveDomain.end(axisi) - solveDomain.start(axisi));
       }
       else{
-	newoffsets[axisi] = solveDomain.start(axisi)*valDomain.end(axisi)-
+	newoffsets[i] = solveDomain.start(axisi)*valDomain.end(axisi)-
 	  solveDomain.end(axisi)*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain.start(axisi)-solveDomain.end(axisi);
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain.end(axisi) - solveDomain.start(axisi);
+	newoffsets[i] /= solveDomain.start(axisi)-solveDomain.end(axisi);
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain.end(axisi) - solveDomain.start(axisi);
 	
       }
     
@@ -218,52 +222,56 @@ PolcLog::PolcLog(double c00,double pert,double weight,DbId id,std::vector<double
   
   
     const Domain &valDomain =  domain(); //validity domain
-    std::vector<double> axis_vector_(2,1.); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
+    std::vector<double> axis_vector_(Axis::MaxAxis,1.); //contains scale L_0 for every axis, if 0 or not defined, no transformationis applied
     const Field * fld = Record::findField(FAxisList);
     const DMI::Record::Ref *axisArray = (fld) ? &(fld->ref().ref_cast<DMI::Record>()) : 0;
     if(axisArray){
-        for(int i=0;i<2;i++){
+        for(int i=0;i<Axis::MaxAxis;i++){
 	  axis_vector_[i]=0;
 	  (*axisArray)[Axis::axisId(i)].get(axis_vector_[i],0.);
 	  
 	}
     }
     
-    if(fabs(axis_vector_[0])&&(axis_vector_[0]*valDomain.start(0)<=0||axis_vector_[0]*valDomain.end(0)<=0))//stop trying to take log of 0 or negative value!!, nothing
+    const int nax=std::min(rank(),MaxPolcRank);
+    for(int i=0;i<nax;i++){
+      const int axisi=getAxis(i);
+      if(valDomain.isDefined(axisi)&&fabs(axis_vector_[axisi])&&(axis_vector_[axisi]*valDomain.start(axisi)<=0||axis_vector_[axisi]*valDomain.end(axisi)<=0))//stop trying to take log of 0 or negative value!!, nothing
       {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(0)<<endl;
-	Polc::changeSolveDomain(solveDomain);
-	return;
-      }
-    if(fabs(axis_vector_[1])&&(axis_vector_[1]*valDomain.start(1)<=0||axis_vector_[1]*valDomain.end(1)<=0))//stop trying to take log of 0 or negative value!!, nothing
-      {
-	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(1)<<endl;
+	cdebug(2)<<"trying to take log of <=0 !! for axis "<<Axis::axisId(axisi)<<endl;
 	Polc::changeSolveDomain(solveDomain);
 	return;
       }
+    }
     
     
-    std::vector<double> newoffsets(2);
-    std::vector<double> newscales(2);
-    for(int axisi=0;axisi<2;axisi++){
+    std::vector<double> newoffsets(nax);
+    std::vector<double> newscales(nax);
+    for(int i=0;i<nax;i++){
+      const int axisi=getAxis(i);
+      if(!valDomain.isDefined(axisi)) { // valid everywhere, keep as is
+	newoffsets[i]=getOffset(i);
+	newscales[i]=getScale(i)==0 ? 1. : getScale(i);
+	continue;
+      }
       if(fabs(axis_vector_[axisi])) {
 	//only transform linear axes
 	/*
-	newoffsets[axisi] = solveDomain[0]*log(valDomain.end(axisi)/axis_vector_[axisi])-
+	newoffsets[i] = solveDomain[0]*log(valDomain.end(axisi)/axis_vector_[axisi])-
 	  solveDomain[1]*log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newoffsets[axisi] /= log(10.)*(solveDomain[0]-solveDomain[1]);
-	newscales[axisi] = log(valDomain.end(axisi)/axis_vector_[axisi]) - log(valDomain.start(axisi)/axis_vector_[axisi]);
-	newscales[axisi] /= log(10.)*(solveDomain[1] - solveDomain[0]);
+	newoffsets[i] /= log(10.)*(solveDomain[0]-solveDomain[1]);
+	newscales[i] = log(valDomain.end(axisi)/axis_vector_[axisi]) - log(valDomain.start(axisi)/axis_vector_[axisi]);
+	newscales[i] /= log(10.)*(solveDomain[1] - solveDomain[0]);
 	*/
-	newoffsets[axisi]  = 0.;
-	newscales[axisi] = 1.;
+	newoffsets[i]  = 0.;
+	newscales[i] = 1.;
       }
       else{
-	newoffsets[axisi] = solveDomain[0]*valDomain.end(axisi)-
+	newoffsets[i] = solveDomain[0]*valDomain.end(axisi)-
 	  solveDomain[1]*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain[0]-solveDomain[1];
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain[1] - solveDomain[0];
+	newoffsets[i] /= solveDomain[0]-solveDomain[1];
+	newscales[i] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[i] /= solveDomain[1] - solveDomain[0];
       }
     
     }
-- 
2.43.0


From 6eab53891c52910d7645c154032dd1aa0d8c8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:35 +0000
Subject: [PATCH 115/153] fix: a function whose coefficients were resized since
 its mask was set could not be made solvable

---
 MEQ/src/Funklet.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Funklet.cc b/MEQ/src/Funklet.cc
index 01f82ef..292bb31 100644
--- a/MEQ/src/Funklet.cc
+++ b/MEQ/src/Funklet.cc
@@ -269,7 +269,8 @@ int Funklet::makeSolvable (int spidIndex0)
   if((*this).hasField(FCoeffMask))
     {
       std::vector<bool> mask;
-      if((*this)[FCoeffMask].get_vector(mask))
+      // ignore the mask of another number of coefficients
+      if((*this)[FCoeffMask].get_vector(mask) && int(mask.size()) == getNumParms())
 	return makeSolvable(spidIndex0,mask);
       
     }
-- 
2.43.0


From 6320b9d77ae124d693b2dfdf87bb2620e8a67165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 116/153] fix: with more than 128 worker threads, the data of
 running threads moved in memory

---
 MEQ/src/MTPool.cc | 1 -
 MEQ/src/MTPool.h  | 4 +++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index b8b874f..a034220 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -63,7 +63,6 @@ void stop  ()
 
 Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
 {
-  workers_.reserve(128);
   Thread::Mutex::Lock lock;
   if( !plock )
     plock = &lock;
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 44f3dde..02af448 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -28,6 +28,7 @@
 #include <TimBase/Thread/Condition.h>
 #include <TimBase/Timer.h>
 #include <MEQ/NodeNursery.h>
+#include <deque>
 #include <list>
 
 namespace Meq
@@ -230,7 +231,8 @@ namespace Meq
         WorkOrderQueue wo_queue_;
 
       // worker threads
-        std::vector<WorkerData> workers_;
+        // (threads keep pointers to these, so they must not move)
+        std::deque<WorkerData> workers_;
 
         // number of busy threads per each tree depth
         std::vector<int> nthr_;
-- 
2.43.0


From 2a3d73cffa1dd350cbc607afb6f89496f2f215cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 117/153] fix: a thread waiting for the children of a node
 could take up an order that needs this same node, and wait forever

---
 MEQ/src/MTPool.cc      | 27 +++++++++++++++++++++------
 MEQ/src/MTPool.h       | 12 +++++++++---
 MEQ/src/NodeNursery.cc |  6 +++---
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index a034220..7101be7 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -199,7 +199,7 @@ void * Brigade::workerLoop ()
 }
 // gets a AbstractWorkOrder from the brigade queue
 // assume we have a lock on cond()
-AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
+AbstractWorkOrder * Brigade::getWorkOrder (bool wait)
 {
   WorkerData &wd = workerData();
   while( true )
@@ -224,11 +224,6 @@ AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
       AbstractWorkOrder *pwo = wo_queue_.front();
       int depth = pwo->depth();
       dprintf(2)("head of WO queue is %s\n",pwo->sdebug().c_str());
-      if( depth < mindepth )
-      {
-        dprintf(2)("mindepth is %d, so returning 0\n",mindepth);
-        return 0;
-      }
       // first case is us waking up from idle
       if( wd.state == IDLE )
       {
@@ -280,6 +275,26 @@ AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
   }
 }
 
+// gets next AbstractWorkOrder that the client has placed on the brigade queue
+// assume we have a lock on cond()
+AbstractWorkOrder * Brigade::getWorkOrder (const NodeNursery &client)
+{
+  for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); iter++ )
+  {
+    WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
+    if( wo && &(wo->clientref) == &client )
+    {
+      wo_queue_.erase(iter);
+      ++nthr_[wo->depth()];
+      cdebug1(2)<<sdebug(1)+" got own queued order\n";
+      // if there's more stuff on the queue, can we wake up another thread?
+      awakenWorker();
+      return wo;
+    }
+  }
+  return 0;
+}
+
 void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
 {
   Thread::Mutex::Lock lock(cond());
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 02af448..1c1c387 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -156,8 +156,6 @@ namespace Meq
 
         // gets next work order from the queue.
         // !!! The caller must obtain a lock on cond() before calling this.
-        // If head of queue has a WO with a depth>=mindepth, returns the WO.
-        // If head of queue has a WO with a depth<mindepth, returns 0.
         // If queue is empty OR too many threads are busy and wait=false, returns 0.
         // If queue is empty and wait=true, marks thread as idle and
         // waits for an order indefinitely.
@@ -165,7 +163,15 @@ namespace Meq
         // may be called immediately.
         // Ownership of order object is transferred to caller.
         // If returning a WO, marks thread as busy.
-        AbstractWorkOrder * getWorkOrder (bool wait=true,int mindepth=0);
+        AbstractWorkOrder * getWorkOrder (bool wait=true);
+
+        // gets next work order that was placed by the given NodeNursery, or 0 if
+        // there is none. This is used by a thread that is executing a node and
+        // waiting for its children. It must not take any other order, since that
+        // may require (via its children) the very node that the thread is executing.
+        // !!! The caller must obtain a lock on cond() before calling this.
+        // Ownership of order object is transferred to caller.
+        AbstractWorkOrder * getWorkOrder (const NodeNursery &client);
         
         // finishes with work order, deallocates object
         void finishWithWorkOrder (AbstractWorkOrder *wo);
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 62d3e53..a16becf 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -304,7 +304,7 @@ void NodeNursery::mt_waitForEndOfPoll ()
   {
     // else grab a work order for ourselves
     Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
     // if there's nothing on the queue, then we have to wait for all worker
     // threads to finish and deliver a result, so just go to sleep
     if( !wo )
@@ -371,7 +371,7 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
       // no result on queue, so we can grab a work order from the brigade queue
       lock.release();
       Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
       // if there's nothing on the queue, then we have to wait for all worker
       // threads to finish and deliver a result, so just go to sleep
       if( !wo )
@@ -513,7 +513,7 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
       {
         // at this point we hold a lock on the brigade queue
         // get a WO back from the queue since we'll be executing it ourselves
-        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
         // release queue lock and go on to fill WO for first child
         lock.release();
         if( wo )
-- 
2.43.0


From 7dc71e6398447cf3a750e571e028151829bc6f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 118/153] fix: a multithreaded poll abandoned at a failed child
 waited forever, or let results of its other children into the next poll

---
 MEQ/src/MTPool.cc      |  8 +++++-
 MEQ/src/MTPool.h       |  4 +--
 MEQ/src/NodeNursery.cc | 60 ++++++++++++++++++++++++------------------
 3 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index 7101be7..365f8a6 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -308,17 +308,23 @@ void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
   delete wo;
 }
 
-void Brigade::clearQueue (const NodeNursery &client)
+int Brigade::clearQueue (const NodeNursery &client)
 {
+  int count = 0;
   Thread::Mutex::Lock lock(cond());
   for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); )
   {
     WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
     if( wo && &(wo->clientref) == &client )
+    {
       wo_queue_.erase(iter++);
+      delete wo;
+      count++;
+    }
     else
       ++iter;
   }
+  return count;
 }
 
 // marks thread as blocked or unblocked
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 1c1c387..b9ced6c 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -151,8 +151,8 @@ namespace Meq
         }
 
         // Clears the brigade's work order queue of WorkOrders associated with the
-        // given NodeNursery
-        void clearQueue (const NodeNursery &client);
+        // given NodeNursery. Returns the number of orders removed
+        int clearQueue (const NodeNursery &client);
 
         // gets next work order from the queue.
         // !!! The caller must obtain a lock on cond() before calling this.
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index a16becf..7580f98 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -233,17 +233,17 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
 // when operating in async poll mode (i.e. Solver)
 void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // store result in child result queue
-  mt.child_retqueue_.push_back(MT_ChildResult());
-  MT_ChildResult &qres = mt.child_retqueue_.back();
-  qres.ichild = ichild;
-  qres.resref.xfer(res.resref);
-  qres.retcode = child_retcodes_[ichild] = res.retcode;
+  // store result in child result queue, unless poll is already finished (this
+  // may be possible if the main thread aborted execute())
+  if( mt.polling_ )
+  {
+    mt.child_retqueue_.push_back(MT_ChildResult());
+    MT_ChildResult &qres = mt.child_retqueue_.back();
+    qres.ichild = ichild;
+    qres.resref.xfer(res.resref);
+    qres.retcode = child_retcodes_[ichild] = res.retcode;
+  }
   // add time to profiling timer
   timer().add(res.timer);
   // wake parent thread since it may be waiting for a child result
@@ -255,10 +255,6 @@ void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 // when doing a background poll
 void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   res.resref.detach(); // discard result straight off but do store the return code
   child_retcodes_[ichild] = res.retcode;
@@ -283,11 +279,12 @@ void NodeNursery::mt_abortPoll ()
 {
   if( !mt.cur_brigade_ )
     return;
-  Thread::Mutex::Lock lock(mt.cur_brigade_->cond());
-  mt.abandon_ = true;
+  // clear out orders placed by us, and ignore results of the others (which
+  // finishPoll() waits for)
+  int ncleared = mt.cur_brigade_->clearQueue(*this);
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   mt.polling_ = false;
-  // clear out orders placed by us
-  mt.cur_brigade_->clearQueue(*this);
+  mt.child_retcount_ += ncleared;
   lock.release();
   // clean up (leaving brigade if needed)
   mt_cleanupAfterPoll();
@@ -300,7 +297,7 @@ void NodeNursery::mt_waitForEndOfPoll ()
     return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   // loop until all children have returned a result
-  while( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+  while( mt.child_retcount_ < mt.numchildren_ )
   {
     // else grab a work order for ourselves
     Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
@@ -377,7 +374,7 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
       if( !wo )
       {
         lock.relock(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+        if( mt.child_retcount_ < mt.numchildren_ )
         {
           MTPool::Brigade::markThreadAsBlocked(name());
           becomeIdle();
@@ -432,9 +429,15 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
 void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // do nothing if poll is already finished or is being abandoned
-  if( !mt.polling_ || mt.abandon_ )
+  // if poll is being abandoned, do nothing but count the result: the parent thread
+  // has to wait for all children that are still executing, or else they would
+  // deliver their results into its next poll
+  if( mt.abandon_ )
+  {
+    if( ++mt.child_retcount_ >= mt.numchildren_ )
+      mt.child_poll_cond_.broadcast();
     return;
+  }
   // store result in child result queue
   (*mt.pchildres_)[ichild].xfer(res.resref);
   child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
@@ -462,11 +465,16 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
     mt.child_poll_cond_.broadcast();
   // if abandoning poll, clear work order queue. Due to the mutex lock
   // above, this will happen only once
-  if( mt.abandon_ )
+  if( mt.abandon_ && mt.child_retcount_ < mt.numchildren_ )
   {
+    // our own result is counted only after this, so that the poll cannot end meanwhile
+    mt.child_retcount_--;
     lock.release();
-    lock.relock(mt.cur_brigade_->cond());
-    mt.cur_brigade_->clearQueue(*this);
+    int ncleared = mt.cur_brigade_->clearQueue(*this);
+    lock.relock(mt.child_poll_cond_);
+    mt.child_retcount_ += ncleared+1;
+    if( mt.child_retcount_ >= mt.numchildren_ )
+      mt.child_poll_cond_.broadcast();
   }
 }
 
@@ -526,7 +534,7 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
         // null from queue means either no more work orders, or too many busy threads busy
         // either way, sleep until a child has returned
         Thread::Mutex::Lock lock2(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+        if( mt.child_retcount_ < mt.numchildren_ )
         {
           MTPool::Brigade::markThreadAsBlocked(name());
           becomeIdle();
-- 
2.43.0


From bab91fd6fd9d7338163cf7ac95aed5f219d7527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 119/153] fix: a multithreaded background poll with a poll
 order looked at the wrong children for being disabled

---
 MEQ/src/NodeNursery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 7580f98..d599878 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -650,7 +650,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
     for( int i=numChildren()-1; i>=0; i-- )
     {
       int ichild = child_poll_order_[i];
-      if( isChildEnabled(i) )
+      if( isChildEnabled(ichild) )
       {
         mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(
             *this,&NodeNursery::mt_receiveBackgroundResult,getChild(ichild),ichild,req,depth));
-- 
2.43.0


From 5101b9e02dcda405f100cacdc21958839d425c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 120/153] fix: the order of fails from several children
 depended on the schedule of threads

---
 MEQ/src/NodeNursery.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index d599878..76482c4 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -441,12 +441,9 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
   // store result in child result queue
   (*mt.pchildres_)[ichild].xfer(res.resref);
   child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
-  // register a fail if received
+  // check for fails (these are collected at the end of the poll)
   if( res.retcode&NodeFace::RES_FAIL )
   {
-    const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
-    child_fails_.push_back(pchildres);
-    num_child_fails_ += pchildres->numFails();
     if( failPolicy() == AidAbandonPropagate )
       mt.abandon_ = true;
   }
@@ -507,14 +504,13 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
       for( int i=numChildren()-1; i>=0; i-- ) // child 0 we handle ourselves
       {
         int ichild = child_poll_order_[i];
+        child_retcodes_[ichild] = 0;
         if( isChildEnabled(ichild) )
         {
           mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(
               *this,&NodeNursery::mt_receiveSyncChildResult,getChild(ichild),ichild,req,depth));
           mt.numchildren_++;
         }
-        else
-          child_retcodes_[ichild] = 0;
       }
       // no more WOs -- sleep until all children have returned
       while( true )
@@ -548,6 +544,17 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
         lock.relock(mt.cur_brigade_->cond());
       }
       lock.release();
+      // collect fails in polling order, whatever the order they were received in
+      for( int i=0; i<numChildren(); i++ )
+      {
+        int ichild = child_poll_order_[i];
+        if( isChildEnabled(ichild) && child_retcodes_[ichild]&NodeFace::RES_FAIL )
+        {
+          const Result * pchildres = childres[ichild].deref_p();
+          child_fails_.push_back(pchildres);
+          num_child_fails_ += pchildres->numFails();
+        }
+      }
       // finish up
       mt_cleanupAfterPoll();
     }
-- 
2.43.0


From 41cd33e21517b897a2606e68b0c10beb305346b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 121/153] fix: multiplying a scalar by an empty result crashed

---
 MeqNodes/src/MatrixMultiply.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 4d959c1..39fea47 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -59,7 +59,7 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
   FailWhen(tensor.tensorRank()>2,ssprintf(
                     "child %d: illegal tensor rank",tensor_ich));
   // empty result: treat as null
-  if( !scalar.numVellSets() )
+  if( !scalar.numVellSets() || !tensor.numVellSets() )
   {
     (res <<= new Result(1)).setNewVellSet(0);
     return;
-- 
2.43.0


From 5f124c93a3fbc852292234ef0a083ddd46ec8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 122/153] fix: MinLocation and MaxLocation of a result without
 cells or values crashed

---
 MeqNodes/src/MaxLocation.cc | 3 +++
 MeqNodes/src/MinLocation.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/MeqNodes/src/MaxLocation.cc b/MeqNodes/src/MaxLocation.cc
index cce1bf1..ca689be 100644
--- a/MeqNodes/src/MaxLocation.cc
+++ b/MeqNodes/src/MaxLocation.cc
@@ -57,6 +57,7 @@ void MaxLocation::computeResultCells (Cells::Ref &ref,const std::vector<Result::
   const Cells &cells =  request.cells();
   //remember cells
   const Result &chres = *( childres.front() );
+  FailWhen(!chres.hasCells(),"no cells in child result");
   cells_ <<= new Cells(chres.cells());
   ref.attach(cells);
 }
@@ -85,6 +86,8 @@ void MaxLocation::evaluateTensors (std::vector<Vells> & out,
   // thanks to checks in getResultDims(), we can expect all 
   // vectors to have the right sizes
   
+  // the child may have no values at all
+  FailWhen(args[0].empty() || !args[0][0],"no values in child result");
   //get input vells
   const Vells &val= *(args[0][0]);
 #ifdef DEBUG
diff --git a/MeqNodes/src/MinLocation.cc b/MeqNodes/src/MinLocation.cc
index 3c92981..5963ad1 100644
--- a/MeqNodes/src/MinLocation.cc
+++ b/MeqNodes/src/MinLocation.cc
@@ -57,6 +57,7 @@ void MinLocation::computeResultCells (Cells::Ref &ref,const std::vector<Result::
   const Cells &cells =  request.cells();
   //remember cells
   const Result &chres = *( childres.front() );
+  FailWhen(!chres.hasCells(),"no cells in child result");
   cells_ <<= new Cells(chres.cells());
   ref.attach(cells);
 }
@@ -85,6 +86,8 @@ void MinLocation::evaluateTensors (std::vector<Vells> & out,
   // thanks to checks in getResultDims(), we can expect all 
   // vectors to have the right sizes
   
+  // the child may have no values at all
+  FailWhen(args[0].empty() || !args[0][0],"no values in child result");
   //get input vells
   const Vells &val= *(args[0][0]);
 #ifdef DEBUG
-- 
2.43.0


From 1d163d3fb80ef18fbf50a136fc47475e3bb990b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 123/153] fix: qualifying a node with a keyword it already has
 changed the qualifiers of the original node

---
 PyApps/src/TDL/TDLimpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 674f97a..ee9ebe8 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -412,8 +412,8 @@ def _mergeQualifiers (qual0,kwqual0,qual,kwqual,uniq=False):
   # always merge keyword qualifiers
   for kw,val in kwqual.items():
     val0 = kwqual0.get(kw,[]);
-    if not isinstance(val0,list):
-      kwqual0[kw] = val0 = [val0];
+    # make a copy, as the list may belong to the qualifiers of another node
+    val0 = list(val0) if isinstance(val0,list) else [val0];
     if not isinstance(val,list):
       val = [val];
     val0.extend([q for q in val if q not in val0]);
-- 
2.43.0


From a6657b19c31897b3fe459c1c170004bdcee7bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 124/153] fix: nodes made of the same definition shared their
 options and lists of children

---
 PyApps/src/TDL/TDLimpl.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index ee9ebe8..e760d36 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -212,6 +212,12 @@ class _NodeDef (object):
       else:
         list.__init__(self,[(0,x)]);
       self._resolved = False;
+    def copy (self):
+      """Returns a copy of the list.""";
+      newlist = _NodeDef.ChildList(list(self));
+      newlist.is_dict = self.is_dict;
+      newlist._resolved = self._resolved;
+      return newlist;
     def resolve (self,scope,classname='unknown',nodename='unnamed'):
       """Returns a 'resolved' list based on this list. A resolved list
       contains only valid NodeStubs. The scope argument is used to look
@@ -583,8 +589,8 @@ class _NodeStub (object):
       else:  # else node not initialized
         self.classname = classname;
         _dprint(4,self.name,'children are',children);
-        self.children = children;
-        self.stepchildren = stepchildren;
+        self.children = children.copy();
+        self.stepchildren = stepchildren.copy();
         # add ourselves to parent list
         for (lbl,child) in self.children + self.stepchildren:
           if child is not None:
@@ -598,7 +604,8 @@ class _NodeStub (object):
         # if creating a VisDataMux explicitly, mark that we have one
         elif self.classname == 'MeqVisDataMux':
           self.scope._repository._have_vdm = self;
-        self._initrec = initrec;
+        # (make copies, as the same definition may be used for several nodes)
+        self._initrec = initrec = initrec.copy();
         # get processor keyword, add to list of processor assignments
         proc = self._proc = initrec.get('proc',None);
         if proc is not None:
-- 
2.43.0


From 9ff8d7cfa94e4ba5d1d3b8979b51136630fd8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 125/153] fix: an uninitialized step-child crashed the
 resolution of the tree, with no error reported for it

---
 PyApps/src/TDL/TDLimpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index e760d36..7093278 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1241,7 +1241,7 @@ class _NodeRepository (dict):
             orphans.append(name);
           else:
             self._roots[name] = node;
-        for (i,ch) in node.children:
+        for (i,ch) in node.children + node.stepchildren:
           if ch is not None and not ch.initialized():
             self.add_error(
               ch._name_stack.make_error(UninitializedNode,
-- 
2.43.0


From 966f3a4070c0878ad8f9bf1723f84ec7e59d9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 126/153] fix: searching a subtree with unassigned children
 crashed

---
 PyApps/src/TDL/TDLimpl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 7093278..1b8a883 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1153,7 +1153,8 @@ class _NodeRepository (dict):
               result.append(node);
             if node.children:
               for label,child in node.children:
-                recursive_find(result,child);
+                if child is not None:
+                  recursive_find(result,child);
         return result;
       # now do the search
       found = [];
-- 
2.43.0


From 8160514188a00d112de3b0365f5f464a4d1c68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 127/153] fix: a search for alternative names matched names
 that only begin with the first one

---
 PyApps/src/TDL/TDLimpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 1b8a883..76afb78 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1078,7 +1078,7 @@ class _NodeRepository (dict):
     if not arg:
       return lambda x:True;
     elif isinstance(arg,str):
-      return re.compile(arg+'$').match;
+      return re.compile('(?:'+arg+')$').match;
     else:
       raise TypeError("%s argument must be a a string, or None"%argname);
   _make_OR_conditional = staticmethod(_make_OR_conditional);
-- 
2.43.0


From 65d3608cf3ff92747239b93e7854c0ec98180cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 128/153] fix: an anonymous node with an unassigned child
 failed with an AttributeError

---
 PyApps/src/TDL/TDLimpl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 76afb78..4e7ee1e 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -350,13 +350,15 @@ class _NodeDef (object):
     self.children = self.children.resolve(scope,classname=self._class);
     classname = self._class.lower();
     # create name as Class(child1,child2,...):qualifiers
-    if self.children:
+    # (children may be unassigned)
+    children = [ child for (ich,child) in self.children if child is not None ];
+    if children:
       # use the scope of the first child. If scopes differ, we'll append them as subscopes
-      scope = self.children[0][1].scope;
+      scope = children[0].scope;
       # generate qualifier list
       quals = [];
       kwquals = {};
-      for (ich,child) in self.children:
+      for child in children:
         child_quals = list(child.quals);
         # if child (1+) comes from a different scope, then prepend its name and qualifiers
         if child.scope is not scope:
@@ -365,7 +367,7 @@ class _NodeDef (object):
             child_quals.insert(0,child.scope._name);
         _mergeQualifiers(quals,kwquals,
            child_quals,child.kwquals,uniq=True);
-      basename = ','.join([x[1].basename for x in self.children]);
+      basename = ','.join([x[1].basename if x[1] is not None else '' for x in self.children]);
       basename = "%s(%s)" % (classname,basename);
       _dprint(4,"creating auto-name",basename,quals,kwquals);
       return scope[basename](*quals,**kwquals) << self;
-- 
2.43.0


From 9e50356529f24979453f898b4c8c47fc37579acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 129/153] fix: anonymous nodes in two scopes of the same name
 became one node

---
 PyApps/src/TDL/TDLimpl.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 4e7ee1e..acf9832 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1450,12 +1450,16 @@ class NodeScope (object):
     return self._repository.add_error(*args,**kwargs);
 
   def MakeUniqueName (self,name):
-    num = self._uniqname_counters.get(name,0);
-    self._uniqname_counters[name] = num+1;
-    if num:
-      return "(%s)%d" % (name,num);
-    else:
-      return "(%s)" % (name,);
+    while True:
+      num = self._uniqname_counters.get(name,0);
+      self._uniqname_counters[name] = num+1;
+      if num:
+        uniqname = "(%s)%d" % (name,num);
+      else:
+        uniqname = "(%s)" % (name,);
+      # another scope object of the same name may have used this one
+      if self.QualifyScopedName(uniqname) not in self._repository:
+        return uniqname;
 
   def MakeConstant (self,value):
     """make or reuse a Meq.Constant node with the given value""";
-- 
2.43.0


From b2b96434ab59f1f06c41e759ddde177f63d064c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 130/153] fix: nodes in the ROOT group were deleted as orphans

---
 PyApps/src/TDL/TDLimpl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index acf9832..97cdd80 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -967,11 +967,13 @@ class _NodeRepository (dict):
       return True;
     # unqualified name: delete from scope dictionary too
     if not ( node.quals or node.kwquals ):
-      try: delattr(node.scope,node.name.split('::')[-1]);
+      try: delattr(node.scope,node.basename);
       except AttributeError: pass;
     # get refcount of this node. True orphans will only have 2:
-    # ourselves, and the local 'node' symbol.
-    refcount = len(gc.get_referrers(node));
+    # ourselves, and the local 'node' symbol. Compare with an object that only has
+    # a local symbol (references from local symbols are not seen by gc.get_referrers()).
+    probe = object();
+    refcount = sys.getrefcount(node) - sys.getrefcount(probe) + 1;
     if refcount > 2:
       _dprint(3,"node",name,"has",refcount,"refs to it, skipping");
       if _dbg.verbose > 4:
-- 
2.43.0


From c3c775ccf9ee8225b7133cbcbaf873686138e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 131/153] fix: a separator in an option menu given as None
 crashed the menu

---
 PyApps/src/TDL/TDLOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index b5f93c5..18fe407 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -1097,7 +1097,7 @@ class _TDLSubmenu (_TDLBoolOptionItem):
         if item is None:
           _dprint(3,"menu: separator");
           item = _TDLOptionSeparator(namespace=self.namespace);
-          item.set_runtime(runtime);
+          item.init(owner,runtime);
           self._items.append(item);
         # item is an option: add to list, steal from global lists
         elif isinstance(item,_TDLBaseOption):
-- 
2.43.0


From f07319ada72f0f7013725c92e6345a8a27477d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 132/153] fix: exclusive menus of different modules shared one
 entry of the configuration

---
 PyApps/src/TDL/TDLOptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index 18fe407..2a81e30 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -1072,6 +1072,9 @@ class _TDLSubmenu (_TDLBoolOptionItem):
     # in exclusive mode, read the exclusive setting from the config
     if self._exclusive:
       self.namespace[self._exclusive] = None;
+      # prefix with name of owner, as for all other options
+      if owner and self._items is None:
+        self.excl_config_name = '.'.join((owner,self.excl_config_name)).lower();
       try:
         excl_value = config.get(config_section,self.excl_config_name);
       except:
-- 
2.43.0


From b69f6dee9c49c370bb96b07a32e2d40c02480143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 133/153] fix: unselecting a file selected a file named None

---
 PyApps/src/TDL/TDLOptions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index 2a81e30..7f054f0 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -647,7 +647,9 @@ class _TDLFileOptionItem (_TDLOptionItem):
     if self.config_name:
       try:
         value = config.get(config_section,self.config_name);
-        if self._validator(value):
+        if not value:
+          self._set(None);
+        elif self._validator(value):
           _dprint(2,"read",self.config_name,"=",value,"from config");
           self._set(value);
         else:
@@ -680,6 +682,14 @@ class _TDLFileOptionItem (_TDLOptionItem):
       self.set(None);
 
   def set (self,value,save=True,callback=True):
+    # None stands for no file
+    if value is None:
+      if self.initialized and self.config_name:
+        _set_config(self.config_name,'',save=save);
+      if self._twitem:
+        self._twitem.setText(2,"<none>");
+      self._set(None,callback=callback);
+      return;
     value = str(value);
     # strip off CWD from path
     cwd = os.getcwd() + "/";
-- 
2.43.0


From 0dded4631f20ee5d8af77aa47c6a6cdb532ea611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 134/153] fix: a custom value conserved by a change of the list
 of options became a string

---
 PyApps/src/TDL/TDLOptions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index 7f054f0..c9a1fe1 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -874,11 +874,11 @@ class _TDLListOptionItem (_TDLOptionItem):
         index = self.option_list_str.index(selection);
         self.set(index,save=False);
       except:
-        # old selection not found in list, so make it a custom value if possible
-        if self._more is not None:
-          self.set_custom_value(selection);
+        # old selection not found in list, so make it a custom value if possible,
         # else fall back to selection #0
-        else:
+        try:
+          self.set_custom_value(self._more(selection));
+        except (TypeError,ValueError):
           self.set(0);
 
   def set_value (self,value,save=True,callback=True):
-- 
2.43.0


From 756c15e841d7c78a3bbd476352f4d69ebef8c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 135/153] fix: option values of several lines made the
 configuration file unreadable

---
 PyApps/src/TDL/TDLOptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index c9a1fe1..1fd2ec1 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -91,7 +91,8 @@ class OptionConfigParser (configparser.RawConfigParser):
       for section in sorted(self.sections()):
         ff.write("[%s]\n"%section);
         for name,value in sorted(self.items(section)):
-          ff.write("%s = %s\n"%(name.lower(),value));
+          # continuation lines must be indented
+          ff.write("%s = %s\n"%(name.lower(),str(value).replace("\n","\n\t")));
         ff.write("\n");
     else:
       _dprint(1,"not writing config file, as saving is disabled");
-- 
2.43.0


From e244b0eb2106105cbd593413738414f97cc4062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 136/153] fix: init_options(save=False) did not disable saving

---
 PyApps/src/TDL/TDLOptions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index 1fd2ec1..16c0279 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -65,6 +65,8 @@ config_file = ".tdl.conf";
 _config_write_failed = False;
 # flag: save changes to config
 _config_save_enabled = True;
+# flag: cleared by init_options(save=False)
+_config_save_allowed = True;
 
 class OptionConfigParser (configparser.RawConfigParser):
   """extend the standard ConfigParser with a 'sticky' filename""";
@@ -110,8 +112,7 @@ def enable_save_config (enable=True):
 
 def save_config ():
   """Saves current option settings to config file."""
-  global _config_save_enabled;
-  if not _config_save_enabled:
+  if not _config_save_enabled or not _config_save_allowed:
     return;
   global _config_write_failed;
   try:
@@ -184,8 +185,8 @@ def init_options (section=None,save=True):
   config.reread();
   global _config_write_failed;
   _config_write_failed = False;
-  global _config_save_enabled;
-  config_save_enabled = save;
+  global _config_save_allowed;
+  _config_save_allowed = save;
   # init stuff
   global config_section;
   filename = section or current_scriptname;
-- 
2.43.0


From cab517328bcf7b8afd6c1f33b1ac905645cc596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 137/153] fix: nothing was selected in an exclusive menu if the
 configuration named an item no longer there

---
 PyApps/src/TDL/TDLOptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyApps/src/TDL/TDLOptions.py b/PyApps/src/TDL/TDLOptions.py
index 16c0279..a6a107f 100644
--- a/PyApps/src/TDL/TDLOptions.py
+++ b/PyApps/src/TDL/TDLOptions.py
@@ -1140,6 +1140,9 @@ class _TDLSubmenu (_TDLBoolOptionItem):
         else:
           self._items += TDLStealOptions(item,runtime);
       self._items0 = None;
+      # select first item if config refers to an item that is no longer there
+      if self._exclusive_items and self._excl_selected is None:
+        next(iter(self._exclusive_items.values())).set(True);
 
   def set_exclusive (self,item,setitem=True,save=True):
     if isinstance(item,str):
-- 
2.43.0


From c669ccad77c57dddbd8115815a8d2b9e2eae4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 138/153] fix: deleting a node implemented in Python crashed
 the server

---
 MeqServer/src/MeqPython.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqServer/src/MeqPython.cc b/MeqServer/src/MeqPython.cc
index cc86966..be8c4ff 100644
--- a/MeqServer/src/MeqPython.cc
+++ b/MeqServer/src/MeqPython.cc
@@ -316,7 +316,7 @@ PyObjectRef createPyNode (Meq::Node &pynode,const string &classname,const string
 {
   Thread::Mutex::Lock lock(python_mutex);
   #if PY_MAJOR_VERSION >= 3
-    PyObjectRef pynode_baton = PyCapsule_New(&pynode, nullptr, [](_object* x){if (x != 0) {delete x;}});
+    PyObjectRef pynode_baton = PyCapsule_New(&pynode, nullptr, nullptr);
   #else
     PyObjectRef pynode_baton = PyCObject_FromVoidPtr(&pynode,0);
   #endif
-- 
2.43.0


From cc796913099d55d88e9b3c810b07b4fcfc127030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 139/153] fix: nodes implemented in Python released their
 Python objects without holding the interpreter lock

---
 MeqServer/src/PyNode.cc           | 16 ++++++++++++++++
 MeqServer/src/PyNode.h            |  2 ++
 MeqServer/src/PyTensorFuncNode.cc | 12 ++++++++++++
 MeqServer/src/PyTensorFuncNode.h  |  1 +
 4 files changed, 31 insertions(+)

diff --git a/MeqServer/src/PyNode.cc b/MeqServer/src/PyNode.cc
index c64a1ac..6c42804 100644
--- a/MeqServer/src/PyNode.cc
+++ b/MeqServer/src/PyNode.cc
@@ -58,6 +58,22 @@ PyNodeImpl::PyNodeImpl (Node *node)
 {
 }
 
+PyNodeImpl::~PyNodeImpl ()
+{
+  // references can only be released while holding the GIL
+  if( !Py_IsInitialized() )
+    return;
+  PyThreadBegin;
+  pynode_obj_.detach();
+  pynode_setstate_.detach();
+  pynode_getresult_.detach();
+  pynode_discoverspids_.detach();
+  pynode_processcommand_.detach();
+  pynode_modifychildreq_.detach();
+  py_prev_request_.detach();
+  PyThreadEnd;
+}
+
 string PyNodeImpl::sdebug (int detail,const string &prefix,const char *name) const
 {
   return pnode_->sdebug(detail,prefix,name);
diff --git a/MeqServer/src/PyNode.h b/MeqServer/src/PyNode.h
index 7f80c44..9b61f5f 100644
--- a/MeqServer/src/PyNode.h
+++ b/MeqServer/src/PyNode.h
@@ -78,6 +78,8 @@ class PyNodeImpl
   // NB: how do we access a node from MeqPython, and still allow multiple classes?
       
     PyNodeImpl (Node *node);
+
+    ~PyNodeImpl ();
       
     //##ModelId=3F9FF6AA0300
     int getResult (Result::Ref &resref, 
diff --git a/MeqServer/src/PyTensorFuncNode.cc b/MeqServer/src/PyTensorFuncNode.cc
index 441b825..b70e810 100644
--- a/MeqServer/src/PyTensorFuncNode.cc
+++ b/MeqServer/src/PyTensorFuncNode.cc
@@ -35,6 +35,18 @@ PyTensorFuncImpl::PyTensorFuncImpl(Node *pnode)
 {
 }
 
+PyTensorFuncImpl::~PyTensorFuncImpl ()
+{
+  // references can only be released while holding the GIL
+  if( !Py_IsInitialized() )
+    return;
+  PyThreadBegin;
+  pynode_compute_result_cells_.detach();
+  pynode_get_result_dims_.detach();
+  pynode_evaluate_tensors_.detach();
+  PyThreadEnd;
+}
+
 void PyTensorFuncImpl::computeResultCells (Cells::Ref &ref,const std::vector<Result::Ref> &childres,const Request &request)
 {
   Assert(pynode_compute_result_cells_);
diff --git a/MeqServer/src/PyTensorFuncNode.h b/MeqServer/src/PyTensorFuncNode.h
index f98855a..ed8cd99 100644
--- a/MeqServer/src/PyTensorFuncNode.h
+++ b/MeqServer/src/PyTensorFuncNode.h
@@ -37,6 +37,7 @@ class PyTensorFuncImpl : public PyNodeImpl
 {
   public:
     PyTensorFuncImpl (Node *node);
+    ~PyTensorFuncImpl ();
       
     // these functions implement the python-side calls
     void computeResultCells (Cells::Ref &ref,const std::vector<Result::Ref> &childres,const Request &request);
-- 
2.43.0


From e9ad300de58cabd59496efc621e98f597f794c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 140/153] fix: a result with a return code was not accepted
 from nodes implemented in Python

---
 MeqServer/src/PyNode.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/MeqServer/src/PyNode.cc b/MeqServer/src/PyNode.cc
index 6c42804..a46b51b 100644
--- a/MeqServer/src/PyNode.cc
+++ b/MeqServer/src/PyNode.cc
@@ -156,11 +156,12 @@ int PyNodeImpl::getResult (Result::Ref &resref,
   // by default we treat retval as a Result object
   PyObject * pyobj_result = *retval;
   // ...but it can also be a tuple of (Result,retcode)...
-  if( PySequence_Check(*retval) && !PyMapping_Check(*retval) )
+  if( PySequence_Check(*retval) && !PyDict_Check(*retval) )
   {
     if( PySequence_Length(*retval) != 2 )
       Throw("Python-side get_result() returned an ill-formed value");
-    PyFailWhen(!PyArg_ParseTuple(*retval,"(Oi)",&pyobj_result,&retcode),
+    retval = PySequence_Tuple(*retval);
+    PyFailWhen(!retval || !PyArg_ParseTuple(*retval,"Oi",&pyobj_result,&retcode),
                 "Python-side get_result() returned an ill-formed value");
   }
   // None corresponds to empty result
@@ -205,11 +206,12 @@ int PyNodeImpl::discoverSpids (Result::Ref &resref,
   // by default we treat retval as a Result object
   PyObject * pyobj_result = *retval;
   // ...but it can also be a tuple of (Result,retcode)...
-  if( PySequence_Check(*retval) && !PyMapping_Check(*retval) )
+  if( PySequence_Check(*retval) && !PyDict_Check(*retval) )
   {
     if( PySequence_Length(*retval) != 2 )
       Throw("Python-side discover_spids() returned an ill-formed value");
-    PyFailWhen(!PyArg_ParseTuple(*retval,"(Oi)",&pyobj_result,&retcode),
+    retval = PySequence_Tuple(*retval);
+    PyFailWhen(!retval || !PyArg_ParseTuple(*retval,"Oi",&pyobj_result,&retcode),
                 "Python-side discover_spids() returned an ill-formed value");
   }
   // None corresponds to empty result
@@ -265,11 +267,12 @@ int PyNodeImpl::processCommand (Result::Ref &resref,
     pyobj_result = 0;
   }
   // else can be a sequence of (Result,int)
-  else if( PySequence_Check(*retval) && !PyMapping_Check(*retval) )
+  else if( PySequence_Check(*retval) && !PyDict_Check(*retval) )
   {
     if( PySequence_Length(*retval) != 2 )
       Throw("Python-side discover_spids() returned an ill-formed value");
-    PyFailWhen(!PyArg_ParseTuple(*retval,"(Oi)",&pyobj_result,&retcode),
+    retval = PySequence_Tuple(*retval);
+    PyFailWhen(!retval || !PyArg_ParseTuple(*retval,"Oi",&pyobj_result,&retcode),
                 "Python-side discover_spids() returned an ill-formed value");
   }
   // else treat  as result
-- 
2.43.0


From ef8806c0bcf9bbb7c0b708d79950f4932f5b2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 141/153] fix: a node whose modify_child_request() returned
 None kept the interpreter lock

---
 MeqServer/src/PyNode.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MeqServer/src/PyNode.cc b/MeqServer/src/PyNode.cc
index a46b51b..a84d5b3 100644
--- a/MeqServer/src/PyNode.cc
+++ b/MeqServer/src/PyNode.cc
@@ -305,7 +305,11 @@ const Request & PyNodeImpl::modifyChildRequest (Request::Ref &newreq,const Reque
   // if None, then return the old request
   PyObject * pyobj_result = *retval;
   if( pyobj_result == Py_None )
-    return req;
+  {
+    newreq.attach(req);
+    PyThreadEnd;
+    return *newreq;
+  }
   // else treat retval as a Request object
   ObjRef objref;
   OctoPython::pyToDMI(objref,pyobj_result);
-- 
2.43.0


From b3752144539718eedde55baa32993a8e69aa7c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 142/153] fix: an exit or an unprintable exception in a node
 implemented in Python ended the server

---
 MeqServer/src/MeqPython.cc |  8 +-------
 MeqServer/src/PyNode.cc    | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/MeqServer/src/MeqPython.cc b/MeqServer/src/MeqPython.cc
index be8c4ff..3cca444 100644
--- a/MeqServer/src/MeqPython.cc
+++ b/MeqServer/src/MeqPython.cc
@@ -328,13 +328,7 @@ PyObjectRef createPyNode (Meq::Node &pynode,const string &classname,const string
     string err;
     if( PyErr_Occurred() )
     {
-      PyObject *type,*value,*tb;
-      PyErr_Fetch(&type,&value,&tb);
-      PyObjectRef pystr = PyObject_Str(value); 
-      PyErr_Restore(type,value,tb);
-      PyErr_Print();
-      // get string content
-      err = string(": ") + PyString_AsString(*pystr);
+      err = string(": ") + Meq::getPyException().what();
     }
     Throw("failed to create PyNode of class "+classname+" ("+modulename+")"+err);
   }
diff --git a/MeqServer/src/PyNode.cc b/MeqServer/src/PyNode.cc
index a84d5b3..b5d003c 100644
--- a/MeqServer/src/PyNode.cc
+++ b/MeqServer/src/PyNode.cc
@@ -45,11 +45,18 @@ LOFAR::Exception getPyException ()
   if( !etype )
     return LOFAR::Exception("python error has gone missing");
   // convert to string
-  PyObjectRef estr = PyObject_Str(evalue);
-  // restore & print error indicator (takes away our ref)
-  PyErr_Restore(etype,evalue,etb);
-  PyErr_Print();
-  return LOFAR::Exception(DMI::ExceptionList::Elem(PyString_AsString(*estr)));
+  PyErr_NormalizeException(&etype,&evalue,&etb);
+  PyObjectRef estr = evalue ? PyObject_Str(evalue) : 0;
+  const char *str = estr ? PyString_AsString(*estr) : 0;
+  string message = str ? str : "python error without a printable message";
+  PyErr_Clear();
+  // print error. NB: PyErr_Print() would exit the process on a SystemExit
+  PyErr_Display(etype,evalue,etb);
+  PyErr_Clear();
+  Py_XDECREF(etype);
+  Py_XDECREF(evalue);
+  Py_XDECREF(etb);
+  return LOFAR::Exception(DMI::ExceptionList::Elem(message));
 }
 
 
-- 
2.43.0


From 3226ff54ca2302b7867b53df65a2a7bb1a1c19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 143/153] fix: nodes implemented in Python could change and
 outlive the data of their children's results

---
 MeqServer/src/PyNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqServer/src/PyNode.cc b/MeqServer/src/PyNode.cc
index b5d003c..51f63b6 100644
--- a/MeqServer/src/PyNode.cc
+++ b/MeqServer/src/PyNode.cc
@@ -153,7 +153,7 @@ int PyNodeImpl::getResult (Result::Ref &resref,
   // add child results
   for( uint i=0; i<childres.size(); i++ )
   {
-    PyObjectRef chres = OctoPython::pyFromDMI(*childres[i],OctoPython::FL_SHAREDATA);
+    PyObjectRef chres = OctoPython::pyFromDMI(*childres[i]);
     PyTuple_SET_ITEM(*args_tuple,i+1,chres.steal()); // SET_ITEM steals our ref
   }
   // call get_result() method
-- 
2.43.0


From 0316430cc7df8aeed10640f1fc50d51793571c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 144/153] fix: the values returned by evaluate_tensors() in
 Python were never accepted

---
 MeqServer/src/PyTensorFuncNode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/PyTensorFuncNode.cc b/MeqServer/src/PyTensorFuncNode.cc
index b70e810..4441741 100644
--- a/MeqServer/src/PyTensorFuncNode.cc
+++ b/MeqServer/src/PyTensorFuncNode.cc
@@ -142,7 +142,7 @@ void PyTensorFuncImpl::evaluateTensors (std::vector<Vells> & out,
   {
     PyObjectRef item = PySequence_GetItem(*retval,i);
     ObjRef objref;
-    OctoPython::pyToDMI(objref,*retval);
+    OctoPython::pyToDMI(objref,*item);
     FailWhen(!objref || objref->objectType() != TpMeqVells,
         ssprintf("Python-side evaluate_tensors() method returned a non-Vells at position %d",i));
     out[i] = objref.as<Vells>();
@@ -158,7 +158,7 @@ void PyTensorFuncImpl::setStateImpl (DMI::Record::Ref &rec,bool initializing)
   if( initializing )
   {
     pynode_evaluate_tensors_ = PyObject_GetAttrString(*pynode_obj_,"evaluate_tensors");
-    PyFailWhen(!pynode_obj_,"Python-side class does not provide an evaluate_tensors() method");
+    PyFailWhen(!pynode_evaluate_tensors_,"Python-side class does not provide an evaluate_tensors() method");
     pynode_compute_result_cells_ =
         PyObject_GetAttrString(*pynode_obj_,"compute_result_cells");
     PyErr_Clear();
-- 
2.43.0


From 5106b2782b6b54e65e129536c188de0213d53bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:39 +0000
Subject: [PATCH 145/153] fix: mqexec() without all arguments used
 uninitialised ones

---
 MeqServer/src/MeqPython.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/MeqPython.cc b/MeqServer/src/MeqPython.cc
index 3cca444..e1a9e81 100644
--- a/MeqServer/src/MeqPython.cc
+++ b/MeqServer/src/MeqPython.cc
@@ -90,7 +90,7 @@ static PyObject * mqexec (PyObject *, PyObject *args)
 {
   char * command;
   PyObject *cmdrec = 0;
-  int silent;
+  int silent = 0;
   PyThreadBegin;
   if( !PyArg_ParseTuple(args, "s|Oi", &command,&cmdrec,&silent) )
   {
@@ -106,7 +106,10 @@ static PyObject * mqexec (PyObject *, PyObject *args)
     HIID cmd(command);
     cdebug(2)<<"mqexec: command is "<<cmd<<endl;
     ObjRef args;
-    FailWhen(!pyToDMI(args,cmdrec),"arg conversion failed");
+    if( cmdrec )
+      { FailWhen(!pyToDMI(args,cmdrec),"arg conversion failed"); }
+    else
+      args <<= new DMI::Record;
     DMI::Record::Ref cmdrec(DMI::ANONWR);
     cmdrec[AidArgs] = args;
     cmdrec[AidSilent] = bool(silent);
-- 
2.43.0


From 029afd531fdfd668c162f832cad27ef3f6121921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 146/153] fix: nodes implemented in Python could not access
 state fields that are not predefined names

---
 MeqServer/src/MeqPython.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MeqServer/src/MeqPython.cc b/MeqServer/src/MeqPython.cc
index e1a9e81..f2edadd 100644
--- a/MeqServer/src/MeqPython.cc
+++ b/MeqServer/src/MeqPython.cc
@@ -152,7 +152,7 @@ static PyObject * get_node_state_field (PyObject *, PyObject *args)
     #endif
     
     FailWhen(!pnode,"get_node_state_field: first argument must be a valid node baton");
-    HIID field(field_str);
+    HIID field(field_str,true,"._");  // allow literals, as in records
     cdebug(3)<<"get_node_state_field: node '"<<pnode->name()<<" field "<<field<<endl;
     ObjRef ref = pnode->syncState()[field].ref();
     PyObject *ret = pyFromDMI(*ref);
@@ -188,7 +188,7 @@ PyObject * PyNodeAccessor::set_node_state_field (PyObject *, PyObject *args)
       Node * pnode = static_cast<Node*>(PyCObject_AsVoidPtr(node_baton));
     #endif
     FailWhen(!pnode,"set_node_state_field: first argument must be a valid node baton");
-    HIID field(field_str);
+    HIID field(field_str,true,"._");  // allow literals, as in records
     cdebug(3)<<"set_node_state_field: node '"<<pnode->name()<<" field "<<field<<endl;
     ObjRef ref;
     pyToDMI(ref,value);
@@ -259,7 +259,7 @@ static PyObject * get_forest_state_field (PyObject *, PyObject *args)
   // catch all exceptions below
   try
   {
-    HIID field(field_str);
+    HIID field(field_str,true,"._");  // allow literals, as in records
     cdebug(3)<<"get_forest_state_field: field "<<field<<endl;
     ObjRef ref = pmqs->getForest().state()[field].ref();
     PyObject *ret = pyFromDMI(*ref);
-- 
2.43.0


From 981151742cddc04459bcd6923b130c3aee92c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 147/153] fix: an invalid result of a node implemented in
 Python left an exception pending for unrelated Python code

---
 MeqServer/src/PyNode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqServer/src/PyNode.h b/MeqServer/src/PyNode.h
index 9b61f5f..0d7f91f 100644
--- a/MeqServer/src/PyNode.h
+++ b/MeqServer/src/PyNode.h
@@ -65,7 +65,7 @@
 // PyThreadEndCatch
 //   no more python calls
 #define PyThreadBeginTry PyThreadBegin; try {
-#define PyThreadEndCatch } catch(...) { PyThreadEnd; throw; } PyThreadEnd;
+#define PyThreadEndCatch } catch(...) { PyErr_Clear(); PyThreadEnd; throw; } PyThreadEnd;
 
 namespace Meq {
 
-- 
2.43.0


From 509c651226bce53ae7b23fc3d60cd040f6f834d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 148/153] fix: Python code that kept an object of a deleted
 node accessed freed memory

---
 MeqServer/src/MeqPython.cc | 6 +++---
 MeqServer/src/MeqPython.h  | 2 +-
 MeqServer/src/PyNode.cc    | 8 +++++++-
 MeqServer/src/PyNode.h     | 1 +
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/MeqServer/src/MeqPython.cc b/MeqServer/src/MeqPython.cc
index f2edadd..4249e33 100644
--- a/MeqServer/src/MeqPython.cc
+++ b/MeqServer/src/MeqPython.cc
@@ -315,13 +315,13 @@ static PyObjectRef callPyFunc (PyObject *func,const BObj &arg)
 // createPyNode
 // creates a PyNode object associated with the given C++ PyNode
 // -----------------------------------------------------------------------
-PyObjectRef createPyNode (Meq::Node &pynode,const string &classname,const string &modulename)
+PyObjectRef createPyNode (Meq::Node &pynode,const string &classname,const string &modulename,PyObjectRef &pynode_baton)
 {
   Thread::Mutex::Lock lock(python_mutex);
   #if PY_MAJOR_VERSION >= 3
-    PyObjectRef pynode_baton = PyCapsule_New(&pynode, nullptr, nullptr);
+    pynode_baton = PyCapsule_New(&pynode, nullptr, nullptr);
   #else
-    PyObjectRef pynode_baton = PyCObject_FromVoidPtr(&pynode,0);
+    pynode_baton = PyCObject_FromVoidPtr(&pynode,0);
   #endif
   PyObjectRef args = Py_BuildValue("(Osss)",*pynode_baton,pynode.name().c_str(),classname.c_str(),modulename.c_str());
   FailWhen(!args,"failed to build args tuple");
diff --git a/MeqServer/src/MeqPython.h b/MeqServer/src/MeqPython.h
index b711cf2..57a71e2 100644
--- a/MeqServer/src/MeqPython.h
+++ b/MeqServer/src/MeqPython.h
@@ -81,7 +81,7 @@ namespace MeqPython
 
   // creates a Python-side PyNode object with the given node name and
   // class, and associates it with the given Node object
-  PyObjectRef createPyNode (Node &pynode,const string &classname,const string &modulename);
+  PyObjectRef createPyNode (Node &pynode,const string &classname,const string &modulename,OctoPython::PyObjectRef &pynode_baton);
 
   // marks all modules imported by MeqPython for a reload next time they are
   // imported. SHould be called before defining a new forest.
diff --git a/MeqServer/src/PyNode.cc b/MeqServer/src/PyNode.cc
index 51f63b6..fce3222 100644
--- a/MeqServer/src/PyNode.cc
+++ b/MeqServer/src/PyNode.cc
@@ -71,6 +71,12 @@ PyNodeImpl::~PyNodeImpl ()
   if( !Py_IsInitialized() )
     return;
   PyThreadBegin;
+  #if PY_MAJOR_VERSION >= 3
+    // Python may keep the baton: giving it a name makes it invalid
+    if( pynode_baton_ )
+      PyCapsule_SetName(*pynode_baton_,"deleted node");
+  #endif
+  pynode_baton_.detach();
   pynode_obj_.detach();
   pynode_setstate_.detach();
   pynode_getresult_.detach();
@@ -96,7 +102,7 @@ void PyNodeImpl::setStateImpl (DMI::Record::Ref &rec,bool initializing)
   {
     string classname  = rec[FClassName].as<string>();
     string modulename = rec[FModuleName].as<string>("");
-    pynode_obj_ = MeqPython::createPyNode(*pnode_,classname,modulename);
+    pynode_obj_ = MeqPython::createPyNode(*pnode_,classname,modulename,pynode_baton_);
     PyFailWhen(!pynode_obj_,"Failed to create PyNode object "+modulename+"."+classname);
     // clear errors when fetching these attributes, as they are optional
     pynode_setstate_ = PyObject_GetAttrString(*pynode_obj_,"set_state_impl");
diff --git a/MeqServer/src/PyNode.h b/MeqServer/src/PyNode.h
index 0d7f91f..36bb901 100644
--- a/MeqServer/src/PyNode.h
+++ b/MeqServer/src/PyNode.h
@@ -106,6 +106,7 @@ class PyNodeImpl
     
     string sdebug(int detail = 0, const string &prefix = "", const char *name = 0) const;
 
+    OctoPython::PyObjectRef pynode_baton_;
     OctoPython::PyObjectRef pynode_obj_;
     OctoPython::PyObjectRef pynode_setstate_;
     OctoPython::PyObjectRef pynode_getresult_;
-- 
2.43.0


From 6933bf5e27114927d71cd0d2edaa8ad3b8f67895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:26 +0000
Subject: [PATCH 149/153] fix: dimensions returned by get_result_dims() in
 Python were not used

---
 MeqServer/src/PyTensorFuncNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqServer/src/PyTensorFuncNode.cc b/MeqServer/src/PyTensorFuncNode.cc
index 4441741..693a339 100644
--- a/MeqServer/src/PyTensorFuncNode.cc
+++ b/MeqServer/src/PyTensorFuncNode.cc
@@ -99,7 +99,7 @@ LoShape PyTensorFuncImpl::getResultDims (const vector<const LoShape *> &input_di
   FailWhen(!PySequence_Check(*retval),
       "Python-side get_result_dims() method must return a sequence of numbers");
   int ndims = PySequence_Length(*retval);
-  resdims = LoShape(ndims);
+  resdims = LoShape(ndims|LoShape::SETRANK);
   for( int i=0; i<ndims; i++ )
   {
     PyObjectRef item = PySequence_GetItem(*retval,i);
-- 
2.43.0


From ca7ef54fd46af943c7cec693b61d673b363f3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 150/153] fix: solver put all equations of a tiled parameter
 into the first tile of each solver tile

ssuki is indexed by the tile of the parameter, but was indexed by the tile of the
solver. When parameters with different tilings are solved for, only the first tiles
were solved, using the equations of all tiles.
---
 MeqNodes/src/Solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/Solver.cc b/MeqNodes/src/Solver.cc
index 8b1a834..d045b40 100644
--- a/MeqNodes/src/Solver.cc
+++ b/MeqNodes/src/Solver.cc
@@ -570,7 +570,7 @@ inline void Solver::fillEqVectors (int itile,int npert,SpidInfo *pspi[],
   {
     SolveGroupData &sgd = sgd_[pspi[i]->solvegroup];
     valid &= isvalid( sgd.deriv_real[sgd.nderiv] = *deriv_iter[i] );
-    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[itile];
+    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[pspi[i]->ptiling->cur_tile];
     sgd.nderiv++;
   }
   if( !valid )
@@ -619,7 +619,7 @@ inline void Solver::fillEqVectors (int itile,int npert,SpidInfo *pspi[],
     SolveGroupData &sgd = sgd_[pspi[i]->solvegroup];
     valid &= isvalid( sgd.deriv_real[sgd.nderiv] = creal(*deriv_iter[i]) );
     valid &= isvalid( sgd.deriv_imag[sgd.nderiv] = cimag(*deriv_iter[i]) );
-    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[itile];
+    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[pspi[i]->ptiling->cur_tile];
     sgd.nderiv++;
   }
   if( !valid )
-- 
2.43.0


From 30429440660f49d5aa7bd238e31ae875def7ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 151/153] fix: solver cropped its incremental solutions to an
 array one row too short

The copied range has cur_iter_+1 rows, the array cur_iter_.
---
 MeqNodes/src/Solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Solver.cc b/MeqNodes/src/Solver.cc
index d045b40..ec5043a 100644
--- a/MeqNodes/src/Solver.cc
+++ b/MeqNodes/src/Solver.cc
@@ -1241,7 +1241,8 @@ int Solver::getResult (Result::Ref &resref,
     // create new array and copy subarray of incremental solutions into it
     DMI::NumArray::Ref arr_ref;
     arr_ref <<= new NumArray(Tpdouble,LoShape(cur_iter_,num_unknowns_));
-    arr_ref().getArray<double,2>() = incr_solutions(LoRange(0,cur_iter_),LoRange::all());
+    if( cur_iter_ )
+      arr_ref().getArray<double,2>() = incr_solutions(LoRange(0,cur_iter_-1),LoRange::all());
     // replace incr_solutions in solver result
     solveResult[FIncrementalSolutions].replace() <<= arr_ref;
   }
-- 
2.43.0


From 37c482c4af430f6ceb019af1886630716b4846a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:53 +0000
Subject: [PATCH 152/153] fix: solver confused tilings of which each is the
 finer one along a different axis

Tilings are kept in a map by tile sizes, and the comparison of tile sizes was not a
strict weak ordering: parameters tiled along time and parameters tiled along frequency
were given the same tiling.
---
 MeqNodes/src/Solver.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/MeqNodes/src/Solver.h b/MeqNodes/src/Solver.h
index d7a0a8b..0a1d5e7 100644
--- a/MeqNodes/src/Solver.h
+++ b/MeqNodes/src/Solver.h
@@ -209,13 +209,10 @@ private:
 
       bool operator < (const DimVector &other) const
       {
-        bool equal = true;
         for(int i=0; i<Axis::MaxAxis; i++)
-          if( dims[i] > other.dims[i] )
-            return false;
-          else if( dims[i] < other.dims[i] )
-            equal = false;
-        return !equal;
+          if( dims[i] != other.dims[i] )
+            return dims[i] < other.dims[i];
+        return false;
       }
 
       bool operator == (const DimVector &other) const
-- 
2.43.0


From bdc8fc887a0aac179c8a0fe1abd4db90a2b43a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 153/153] fix: solver updates of tiles were given to other
 tiles of the same parameter

Updates were sent in order of the solver tiles, parameters take them in order of their
own tiles. The two differ if a solver tile has several tiles along the first axis and
there are several solver tiles along the second.
---
 MeqNodes/src/Solver.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/MeqNodes/src/Solver.cc b/MeqNodes/src/Solver.cc
index ec5043a..4dd6c18 100644
--- a/MeqNodes/src/Solver.cc
+++ b/MeqNodes/src/Solver.cc
@@ -1473,13 +1473,12 @@ void Solver::fillRider (Request::Ref &reqref,bool save_funklets,bool converged)
     // vector via the spid set indices
     for( SpidSet::const_iterator ii = pui.spidset.begin(); ii != pui.spidset.end(); ii++ )
     {
-      Subsolver *pss = psubsolver(0,spids_[ii->first].solvegroup);
-      const LoMat_int &slice = ii->second;
-      for( int itile=0; itile<numSubtiles(); itile++ )
-      {
-        for( int i=slice(itile,0); i<slice(itile,1); i++ )
-          pupd[j++] = pss[itile].solution(i);
-      }
+      const SpidInfo &spi = spids_[ii->first];
+      Subsolver *pss = psubsolver(0,spi.solvegroup);
+      // updates go in order of the tiles of the parm; the tiles within one solver
+      // tile are not necessarily successive
+      for( int i=0; i<spi.nuk; i++ )
+        pupd[j++] = pss[spi.ptiling->super_tile[i]].solution(spi.ssuki[i]);
     }
     // add save command if requested
     if( save_funklets )
-- 
2.43.0

