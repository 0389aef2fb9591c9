From e9e0b370ec527ad11896b00e4bf88a3ba94f5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 001/112] fix: CylindricalEdgeNodeVolume@n0 was overwritten by
 zeros of the length of the node list

---
 src/GeomModels/CylindricalEdgeNodeVolume.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 4ef4b34..8666b64 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -43,9 +43,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
 
   dsAssert(dimension == 2, "CylindricalEdgeNodeVolume 2d Only");
 
-  std::vector<DoubleType> nv(r.GetNumberNodes());
-
-
   if (dimension == 2)
   {
     const Region &region = GetRegion();
@@ -67,8 +64,6 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
   {
     dsAssert(false, "UNEXPECTED");
   }
-
-  SetValues(nv);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 7b2bf2c3cd7d50d8b250c921358d09b7968b16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 002/112] fix: volume of revolution of triangles whose far side
 is closer to the axis

---
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..e9db9aa 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -121,11 +121,12 @@ DoubleType calcCylindricalTriangleVolumeFlat(DoubleType r0, DoubleType z0, Doubl
   const DoubleType r20_2 = pow((r2 - r0), 2.0);
   const DoubleType r10_2 = pow((r1 - r0), 2.0);
 
-  ret = abs(r20_2 - r10_2) * z / 3.0;
+  // the two terms have opposite sign when the side at z1 is closer to the axis than r0
+  ret = (r20_2 - r10_2) * z / 3.0;
 
-  const DoubleType r21 = abs(r2 - r1);
+  const DoubleType r21 = r2 - r1;
   ret += r21 * r0 * z;
-  ret *= M_PI;
+  ret = M_PI * abs(ret);
 
   return ret;
 }
-- 
2.43.0


From 307a03c78992ed6349186d8379f6bc0b98018599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 003/112] fix: create_contact_from_interface on a 2D device
 read outside of the list of tetrahedra

---
 src/Geometry/Contact.cc   | 6 ++++++
 src/Geometry/Interface.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/Geometry/Contact.cc b/src/Geometry/Contact.cc
index 0033a00..4ef28b0 100644
--- a/src/Geometry/Contact.cc
+++ b/src/Geometry/Contact.cc
@@ -207,6 +207,12 @@ void Contact::FindEdges() const
 
 void Contact::FindTriangles() const
 {
+  // triangles are faces of tetrahedra; the lists below are not available otherwise
+  if (GetRegion()->GetDimension() != 3)
+  {
+    return;
+  }
+
   contacttriangles.clear();
   contactedges.clear();
 
diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 821ee36..a233527 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -275,6 +275,12 @@ void Interface::FindEdges() const
 
 void Interface::FindTriangles() const
 {
+  // triangles are faces of tetrahedra; the lists below are not available otherwise
+  if (GetRegion0()->GetDimension() != 3)
+  {
+    return;
+  }
+
   triangles0.clear();
   triangles1.clear();
   edges0.clear();
-- 
2.43.0


From a13294598afdb105e85b2bdf075b8cabffb931d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 004/112] fix: Joyce-Dixon constants of the Fermi integral were
 sqrt(1/(4 pi)) and 3 pi/4 instead of sqrt(1/8) and 3 sqrt(pi)/4

The normalised inverse Fermi integral is log(r) + r/sqrt(8) + ... and
sqrt((3 sqrt(pi)/4 r)^(4/3) - pi^2/6), as the comments next to the constants
and the derivative say.  With the wrong constants InvFermi was discontinuous
at the break point and its derivative there did not match.
---
 src/MathEval/Fermi.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 83aa28e..80e4fd2 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -39,7 +39,7 @@ template <typename T>
 T Joyce(T r)
 {
     //static const T sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -4.9500897298752622e-3;
     static const T c2 =  1.4838577128872821e-4;
     static const T c3 = -4.4256301190009895e-6;
@@ -61,7 +61,7 @@ template <typename T>
 T dJoycedx(T r)
 {
     //static const double sqrt1_8 = 1.0/sqrt(8.);
-    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_pi<T>();
+    static const T sqrt1_8 = 0.5 * boost::math::constants::one_div_root_two<T>();
     static const T c1 = -2.0*4.9500897298752622e-3;
     static const T c2 =  3.0*1.4838577128872821e-4;
     static const T c3 = -4.0*4.4256301190009895e-6;
@@ -83,7 +83,7 @@ T Expansion(T r)
 {
     /// M_PI_4 = pi/4
     // static const T d1 = 3./4.* sqrt(M_PI);
-    static const T d1 = boost::math::constants::three_quarters_pi<T>();
+    static const T d1 = 3./4. * boost::math::constants::root_pi<T>();
     //static const T d2 = 4./3.;
     static const T d2 = static_cast<T>(4.)/static_cast<T>(3.);
     //static const T d3 = - M_PI * M_PI/6;
-- 
2.43.0


From 1285fa8aaaf3550819080743b666ec6049201f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 005/112] fix: derivative of the degenerate branch of InvFermi
 divided by the shifted value

The expansion is sqrt(...) + offset, so its derivative divides by the square
root alone.  At the break point the derivative now matches the other branch.
---
 src/MathEval/Fermi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 80e4fd2..45bd5a4 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -110,7 +110,7 @@ T dExpansiondx(T r)
         static const T d1 = 3./4. * boost::math::constants::root_pi<T>();
         //static const double d2 = 1.0/3.0;
         static const T d2 = boost::math::constants::third<T>();
-        T sum = d0 * pow(d1 * r, d2) / Expansion(r);
+        T sum = d0 * pow(d1 * r, d2) / (Expansion(r) - offset);
         return sum;
 }
 
-- 
2.43.0


From 520222b827071ca18e9269710eb9e4b48ecd4c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 006/112] fix: Fermi returned values off by many orders of
 magnitude for large arguments

Starting Newton from exp(Eta) in the degenerate range needs more than the 20
iterations allowed, and the unconverged iterate was returned.  Start from the
inverse of the degenerate expansion there.
---
 src/MathEval/Fermi.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MathEval/Fermi.cc b/src/MathEval/Fermi.cc
index 45bd5a4..eaff0fa 100644
--- a/src/MathEval/Fermi.cc
+++ b/src/MathEval/Fermi.cc
@@ -114,6 +114,15 @@ T dExpansiondx(T r)
         return sum;
 }
 
+/// inverse of Expansion
+template <typename T>
+T InvExpansion(T eta)
+{
+    static const T d1 = 3./4. * boost::math::constants::root_pi<T>();
+    const T s = eta - offset;
+    return pow(s * s + boost::math::constants::pi_sqr_div_six<T>(), static_cast<T>(0.75)) / d1;
+}
+
 template <typename T>
 T good_relerror()
 {
@@ -166,7 +175,8 @@ template <typename T>
 T Fermi(T Eta)
 {
     //// initial guess
-    T r = exp(Eta);
+    static const T eta_break = InvFermi(static_cast<T>(breakpoint));
+    T r = (Eta < eta_break) ? exp(Eta) : InvExpansion(Eta);
 //    std::cerr << "Init: " << Eta << " " << r << std::endl;
     T rerr = 0.0;
     size_t i = 0;
-- 
2.43.0


From d462ed40596d629b0a04735030c8875a83483aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 007/112] fix: derivative of the Bernoulli function lost all
 digits next to zero

The closed form was used down to expm1(x) == x and returned for example 0 or
-1 instead of -0.5 for arguments of 1e-16.  Use the series where the
cancellation is worse than its truncation.
---
 src/MathEval/Bernoulli.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/MathEval/Bernoulli.cc b/src/MathEval/Bernoulli.cc
index 73a0479..74ced0d 100644
--- a/src/MathEval/Bernoulli.cc
+++ b/src/MathEval/Bernoulli.cc
@@ -19,6 +19,13 @@ DoubleType GetLogEpsilon()
   static auto ret = fabs(log(std::numeric_limits<DoubleType>().epsilon()));
   return ret;
 }
+
+template <typename DoubleType>
+DoubleType GetSeriesBound()
+{
+  const DoubleType eps = std::numeric_limits<DoubleType>().epsilon();
+  return pow(static_cast<DoubleType>(5040.) * eps, static_cast<DoubleType>(0.2));
+}
 }
 
 template <typename DoubleType>
@@ -130,12 +137,12 @@ DoubleType derBernoulliImpl(DoubleType x)
       ret /= ex1 * ex1;
     }
 #else
-    const auto ex1 = expm1(x);
-
-    //// This condition is IMPORTANT for convergence
-    //// TODO: it should be possible to calculate the breakpoint for this condition
-    if (x != ex1)
+    //// Below this the neglected x^5/5040 term of the series is less than epsilon,
+    //// and the cancellation in the closed form is worse
+    static const DoubleType bound = GetSeriesBound<DoubleType>();
+    if (fx > bound)
     {
+      const auto ex1 = expm1(x);
       const auto ex2 = ex1 - (x * exp(x));
   //  const auto ex2 = (1 - x) * exp(x) - 1;
       ret = ex2;
@@ -143,16 +150,9 @@ DoubleType derBernoulliImpl(DoubleType x)
     }
     else
     {
-      DoubleType num = static_cast<DoubleType>(-0.5);
-      DoubleType den = static_cast<DoubleType>( 1.0);
-      num -= x / static_cast<DoubleType>(3.);
-      den += x;
-#if 0
-      // these terms did not affect testing
-      num -= x*x / static_cast<DoubleType>(8.);
-      den += (7.*x*x)/12.;
-#endif
-      ret = num / den;
+      ret = static_cast<DoubleType>(-0.5);
+      ret += x / static_cast<DoubleType>(6.);
+      ret -= x*x*x / static_cast<DoubleType>(180.);
     }
 #endif
   }
-- 
2.43.0


From d8efb1eb80d40fdaf31f9a20daa77a6c18a2f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 008/112] fix: uniform edge data was converted to tetrahedron
 edge data of the length of the triangle list

---
 src/AutoEquation/ModelExprData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprData.cc b/src/AutoEquation/ModelExprData.cc
index 9b4cefc..5d7dfcc 100644
--- a/src/AutoEquation/ModelExprData.cc
+++ b/src/AutoEquation/ModelExprData.cc
@@ -280,7 +280,7 @@ void ModelExprData<DoubleType>::convertToTetrahedronEdgeData()
     if (edgeScalarData->IsUniform())
     {
       const DoubleType val = edgeScalarData->GetUniformValue();
-      size_t       len = 6 * reg->GetTriangleList().size();
+      size_t       len = 6 * reg->GetTetrahedronList().size();
 
       type = datatype::TETRAHEDRONEDGEDATA;
       TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(val, len);
-- 
2.43.0


From 661b414d8a37128942e5016df40553e103cd2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 009/112] fix: worker threads raced for the manually raised
 floating point exception flags

---
 src/utility/FPECheck.cc | 2 +-
 src/utility/FPECheck.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/FPECheck.cc b/src/utility/FPECheck.cc
index 9227d42..b59ae05 100644
--- a/src/utility/FPECheck.cc
+++ b/src/utility/FPECheck.cc
@@ -14,7 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <cmath>
 #include <cassert>
 
-FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
+thread_local FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
 
 #ifndef _WIN32
 void fpehandle(int)
diff --git a/src/utility/FPECheck.hh b/src/utility/FPECheck.hh
index 7e3502b..65c625f 100644
--- a/src/utility/FPECheck.hh
+++ b/src/utility/FPECheck.hh
@@ -41,6 +41,6 @@ class FPECheck
     FPECheck(const FPECheck &);
     FPECheck &operator=(const FPECheck &);
 
-    static FPECheck::FPEFlag_t fpe_raised_;
+    static thread_local FPECheck::FPEFlag_t fpe_raised_;
 };
 #endif
-- 
2.43.0


From 08cf004efd3dc3866aa9c39d308e8c2bb782b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 010/112] fix: floating point exceptions in products and sums
 were lost when a later operand was evaluated

---
 src/AutoEquation/InterfaceModelExprEval.cc | 16 ++++++++++++++++
 src/AutoEquation/ModelExprEval.cc          | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index df6f811..8838d1c 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -247,6 +247,8 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateP
   out = InterfaceModelExprData<DoubleType>(1.0);
   /// Premature optimization
   /// short circuit multiplication
+  /// evaluating an argument clears the exceptions raised here
+  FPECheck::FPEFlag_t fpeFlags = FPECheck::getClearedFlag();
   for (size_t i = 0; i < values.size(); ++i)
   {
       InterfaceModelExprData<DoubleType> x = eval_function(values[i]);
@@ -261,9 +263,15 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateP
       else
       {
           out *= x;
+          fpeFlags = FPECheck::combineFPEFlags(fpeFlags, FPECheck::getFPEFlags());
       }
   }
 
+  if (FPECheck::CheckFPE(fpeFlags))
+  {
+    FPECheck::raiseFPE(fpeFlags);
+  }
+
   return out;
 }
 
@@ -273,10 +281,18 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateA
   InterfaceModelExprData<DoubleType> out;
   out = InterfaceModelExprData<DoubleType>(0.0);
   std::vector<Eqo::EqObjPtr> values = EngineAPI::getArgs(arg);
+  /// evaluating an argument clears the exceptions raised here
+  FPECheck::FPEFlag_t fpeFlags = FPECheck::getClearedFlag();
   for (size_t i = 0; i < values.size(); ++i)
   {
       InterfaceModelExprData<DoubleType> x = eval_function(values[i]);
       out += x;
+      fpeFlags = FPECheck::combineFPEFlags(fpeFlags, FPECheck::getFPEFlags());
+  }
+
+  if (FPECheck::CheckFPE(fpeFlags))
+  {
+    FPECheck::raiseFPE(fpeFlags);
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bc712ed..aa4a28c 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -246,6 +246,8 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateProductType(Eqo::Eq
 //    out = eval_function(values[0]);
   /// Premature optimization
   /// short circuit multiplication
+  /// evaluating an argument clears the exceptions raised here
+  FPECheck::FPEFlag_t fpeFlags = FPECheck::getClearedFlag();
   for (size_t i = 0; i < values.size(); ++i)
   {
     ModelExprData<DoubleType> x = eval_function(values[i]);
@@ -260,9 +262,15 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateProductType(Eqo::Eq
     else
     {
       out *= x;
+      fpeFlags = FPECheck::combineFPEFlags(fpeFlags, FPECheck::getFPEFlags());
     }
   }
 
+  if (FPECheck::CheckFPE(fpeFlags))
+  {
+    FPECheck::raiseFPE(fpeFlags);
+  }
+
   return out;
 }
 
@@ -341,10 +349,18 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateAddType(Eqo::EqObjP
 
   out = ModelExprData<DoubleType>(0.0, data_ref);
   std::vector<Eqo::EqObjPtr> values = EngineAPI::getArgs(arg);
+  /// evaluating an argument clears the exceptions raised here
+  FPECheck::FPEFlag_t fpeFlags = FPECheck::getClearedFlag();
   for (size_t i = 0; i < values.size(); ++i)
   {
     ModelExprData<DoubleType> x = eval_function(values[i]);
     out += x;
+    fpeFlags = FPECheck::combineFPEFlags(fpeFlags, FPECheck::getFPEFlags());
+  }
+
+  if (FPECheck::CheckFPE(fpeFlags))
+  {
+    FPECheck::raiseFPE(fpeFlags);
   }
 
   return out;
-- 
2.43.0


From cf9004007329fd4e35f78d698f398a9941476702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 011/112] fix: a function that is not registered evaluated to 0
 when its arguments were constant

---
 src/MathEval/MathEval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index d23bca9..a1f3c21 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -457,6 +457,12 @@ DoubleType MathEval<DoubleType>::EvaluateMathFunc(const std::string &func, std::
     const Eqomfp::MathWrapper<DoubleType> &MyFunc = *(it->second);
     x = MyFunc.Evaluate(vals, error);
   }
+  else
+  {
+      std::ostringstream os;
+      os << "could not find function \"" << func << "\"";
+      error += os.str();
+  }
 
   return x;
 }
-- 
2.43.0


From 712b5fa31abd574d59a4164fceeb5934cdbf7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 012/112] fix: models kept the values of a model that was
 replaced by one of the same name

---
 src/Geometry/Region.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..9dcaec2 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -891,6 +891,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         nodeModels[nm] = nmp;
+        //// Anything depending on the model replaced is out of date
+        this->SignalCallbacks(nm);
     }
     else if (edgeModels.count(nm))
     {
@@ -916,6 +918,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
     else
     {
       nodeModels[nm] = nmp;
+      //// Anything depending on a deleted model of this name is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -929,6 +933,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         edgeModels[nm] = emp;
+        //// Anything depending on the model replaced is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -954,6 +960,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
     else
     {
       edgeModels[nm] = emp;
+      //// Anything depending on a deleted model of this name is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -967,6 +975,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         triangleEdgeModels[nm] = emp;
+        //// Anything depending on the model replaced is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -992,6 +1002,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
     else
     {
       triangleEdgeModels[nm] = emp;
+      //// Anything depending on a deleted model of this name is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
@@ -1005,6 +1017,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
         tetrahedronEdgeModels[nm] = emp;
+        //// Anything depending on the model replaced is out of date
+        this->SignalCallbacks(nm);
     }
     else if (nodeModels.count(nm))
     {
@@ -1030,6 +1044,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
     else
     {
       tetrahedronEdgeModels[nm] = emp;
+      //// Anything depending on a deleted model of this name is out of date
+      this->SignalCallbacks(nm);
     }
 }
 
-- 
2.43.0


From 51a377b102f50a06e992fe988db10d14d3076cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 013/112] fix: element models that fall back to an edge model
 did not follow its changes

---
 src/Geometry/Region.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 9dcaec2..d62524f 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1055,7 +1055,15 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
  */
 void Region::RegisterCallback(const std::string &mod, const std::string &dep)
 {
-    DependencyMap[mod].insert(dep);
+    std::set<std::string> &deps = DependencyMap[mod];
+    deps.insert(dep);
+
+    //// An edge model @n0, @n1 is used when there is no element edge model @en0, @en1
+    const size_t len = dep.size();
+    if ((len > 4) && ((dep.compare(len - 4, 4, "@en0") == 0) || (dep.compare(len - 4, 4, "@en1") == 0)))
+    {
+      deps.insert(dep.substr(0, len - 3) + dep.substr(len - 2));
+    }
 }
 
 void Region::UnregisterCallback(const std::string &mod)
-- 
2.43.0


From f598eb6018f9daff7cc17d20508e8e79b191cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 014/112] fix: models using the expression of a contact model
 were 0 away from the contact

---
 src/AutoEquation/ModelExprEval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index aa4a28c..e86c49e 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -483,7 +483,8 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
     FPECheck::ClearFPE();
   }
 
-  if (cache_result && (out.GetType() != datatype::INVALID))
+  // the values of a contact model are not available away from the contact
+  if (cache_result && indexes.empty() && (out.GetType() != datatype::INVALID))
   {
     cache->SetEntry(EngineAPI::getStringValue(arg), out);
   }
-- 
2.43.0


From d80999ee2234ca4ed62c0b8eada67f8af290630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 015/112] fix: floating point exceptions outside of expressions
 were reported for the first read only

---
 src/models/EdgeModel.cc            | 1 +
 src/models/NodeModel.cc            | 1 +
 src/models/TetrahedronEdgeModel.cc | 1 +
 src/models/TriangleEdgeModel.cc    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 75ca993..ec17a6d 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -87,6 +87,7 @@ void EdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f085e38..a3a8a31 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -109,6 +109,7 @@ void NodeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the node model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..bb63b98 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -85,6 +85,7 @@ void TetrahedronEdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 84d6554..a1e69db 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -83,6 +83,7 @@ void TriangleEdgeModel::CalculateValues() const
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
     FPECheck::ClearFPE();
+    MarkOld();
     GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str().c_str());
   }
 }
-- 
2.43.0


From aa7433fdb6e93b616309cd1b2fbbff275fc65b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 016/112] fix: interface models that are uniform had length 0,
 and kept being taken as uniform after their inputs changed

---
 src/models/InterfaceNodeModel.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/models/InterfaceNodeModel.cc b/src/models/InterfaceNodeModel.cc
index 08b6a5e..1679346 100644
--- a/src/models/InterfaceNodeModel.cc
+++ b/src/models/InterfaceNodeModel.cc
@@ -35,7 +35,8 @@ bool InterfaceNodeModel::IsOne() const
 InterfaceNodeModel::InterfaceNodeModel(const std::string &nm, const InterfacePtr ip)
     : name(nm),
       myinterface(ip),
-      model_data(ip->GetNodes0().size())
+      model_data(ip->GetNodes0().size()),
+      length(ip->GetNodes0().size())
 {
 }
 
@@ -159,11 +160,8 @@ void InterfaceNodeModel::RegisterCallback(const std::string &nm)
 
 bool InterfaceNodeModel::IsUniform() const
 {
-  //// We cannot know if we are uniform unless we are uptodate!
-  if (!uptodate)
-  {
-    CalculateValues();
-  }
+  //// We cannot know if we are uniform unless we are recalculated
+  CalculateValues();
 
   return model_data.IsUniform();
 }
-- 
2.43.0


From 86af1ae320610a63f78d34f69d75a3e34ea974e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 017/112] fix: dependencies of a replaced model were kept, and
 hid changes from the models depending on it

---
 src/Geometry/Region.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index d62524f..5311b3e 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -890,6 +890,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
         os << "Replacing Node Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// The replaced model no longer needs what it depended on
+        UnregisterCallback(nm);
         nodeModels[nm] = nmp;
         //// Anything depending on the model replaced is out of date
         this->SignalCallbacks(nm);
@@ -932,6 +934,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
         os << "Replacing Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// The replaced model no longer needs what it depended on
+        UnregisterCallback(nm);
         edgeModels[nm] = emp;
         //// Anything depending on the model replaced is out of date
         this->SignalCallbacks(nm);
@@ -974,6 +978,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
         os << "Replacing Triangle Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// The replaced model no longer needs what it depended on
+        UnregisterCallback(nm);
         triangleEdgeModels[nm] = emp;
         //// Anything depending on the model replaced is out of date
         this->SignalCallbacks(nm);
@@ -1016,6 +1022,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
         os << "Replacing Tetrahedron Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// The replaced model no longer needs what it depended on
+        UnregisterCallback(nm);
         tetrahedronEdgeModels[nm] = emp;
         //// Anything depending on the model replaced is out of date
         this->SignalCallbacks(nm);
-- 
2.43.0


From a0a94a850e1ca7a9e68513eb2b9b3705cdb20377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 018/112] fix: ContactSurfaceArea of a 1D region counted
 contacts of its neighbour

---
 src/GeomModels/SurfaceArea.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 23d6082..0c1b9ff 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -95,10 +95,19 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
             const DoubleType length = 1.0;
             nv[ni] += length;
         }
-        if (ctc.count(ci))
+        const auto cit = ctc.find(ci);
+        if (cit != ctc.end())
         {
-            const DoubleType length = 1.0;
-            ca[ni] += length;
+            for (const auto &cp : cit->second)
+            {
+                //// a contact of another region may be at the same coordinate
+                if (cp->GetRegion() == &GetRegion())
+                {
+                    const DoubleType length = 1.0;
+                    ca[ni] += length;
+                    break;
+                }
+            }
         }
     }
     SetValues(nv);
-- 
2.43.0


From ba96f7867bc8d12541ab7fc19dc41f947e9ed8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 019/112] fix: a model calculated for the first time marked
 models old that were in use by the one being calculated

---
 src/models/EdgeModel.cc            | 16 ++++++++++++++--
 src/models/EdgeModel.hh            |  2 ++
 src/models/NodeModel.cc            | 18 +++++++++++++++---
 src/models/NodeModel.hh            |  2 ++
 src/models/TetrahedronEdgeModel.cc | 16 ++++++++++++++--
 src/models/TetrahedronEdgeModel.hh |  2 ++
 src/models/TriangleEdgeModel.cc    | 16 ++++++++++++++--
 src/models/TriangleEdgeModel.hh    |  2 ++
 8 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index ec17a6d..139b9be 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -286,7 +286,7 @@ void EdgeModel::SetValues(const EdgeScalarList<DoubleType> &nv)
     model_data.set_values(nv);
   }
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
@@ -309,11 +309,23 @@ void EdgeModel::SetValues(const DoubleType &v)
     model_data.SetUniformValue<DoubleType>(v);
   }
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
 
+//
+// Anything up to date while this model is not, has not used its values.
+// Marking it old while another model is being calculated would leave that model
+// up to date and depending on one that is not, so it would miss the next change
+void EdgeModel::SignalIfUpToDate()
+{
+  if (uptodate)
+  {
+    MarkOld();
+  }
+}
+
 void EdgeModel::MarkOld()
 {
   uptodate = false;
diff --git a/src/models/EdgeModel.hh b/src/models/EdgeModel.hh
index 5bec256..0ce5b54 100644
--- a/src/models/EdgeModel.hh
+++ b/src/models/EdgeModel.hh
@@ -168,6 +168,8 @@ class EdgeModel : public std::enable_shared_from_this<EdgeModel> {
         template <typename DoubleType>
         void SetValues(const DoubleType &) const;
 
+        void SignalIfUpToDate();
+
         void MarkOld() const;
 
     private:
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index a3a8a31..ad56f24 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -148,7 +148,7 @@ void NodeModel::SetValues(const NodeScalarList<DoubleType> &nv)
     model_data.set_values(nv);
   }
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
@@ -171,7 +171,7 @@ void NodeModel::SetValues(const DoubleType &v)
     model_data.SetUniformValue<DoubleType>(v);
   }
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
@@ -215,11 +215,23 @@ void NodeModel::SetNodeValue(size_t index, DoubleType value)
     model_data.SetValue(index, value);
   }
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 
 }
 
+//
+// Anything up to date while this model is not, has not used its values.
+// Marking it old while another model is being calculated would leave that model
+// up to date and depending on one that is not, so it would miss the next change
+void NodeModel::SignalIfUpToDate()
+{
+  if (uptodate)
+  {
+    MarkOld();
+  }
+}
+
 void NodeModel::MarkOld()
 {
   uptodate = false;
diff --git a/src/models/NodeModel.hh b/src/models/NodeModel.hh
index 2cf2d18..571212e 100644
--- a/src/models/NodeModel.hh
+++ b/src/models/NodeModel.hh
@@ -163,6 +163,8 @@ class NodeModel : public std::enable_shared_from_this<NodeModel> {
         template <typename DoubleType>
         void SetValues(const DoubleType &) const;
 
+        void SignalIfUpToDate();
+
         void MarkOld() const;
 
         void DefaultInitializeValues();
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index bb63b98..30f40c9 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -105,7 +105,7 @@ void TetrahedronEdgeModel::SetValues(const TetrahedronEdgeScalarList<DoubleType>
 {
   model_data.set_values(nv);
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
@@ -126,10 +126,22 @@ void TetrahedronEdgeModel::SetValues(const DoubleType &v)
 {
   model_data.SetUniformValue(v);
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
+//
+// Anything up to date while this model is not, has not used its values.
+// Marking it old while another model is being calculated would leave that model
+// up to date and depending on one that is not, so it would miss the next change
+void TetrahedronEdgeModel::SignalIfUpToDate()
+{
+  if (uptodate)
+  {
+    MarkOld();
+  }
+}
+
 void TetrahedronEdgeModel::MarkOld()
 {
   uptodate = false;
diff --git a/src/models/TetrahedronEdgeModel.hh b/src/models/TetrahedronEdgeModel.hh
index 553d035..aa35ea1 100644
--- a/src/models/TetrahedronEdgeModel.hh
+++ b/src/models/TetrahedronEdgeModel.hh
@@ -152,6 +152,8 @@ class TetrahedronEdgeModel : public std::enable_shared_from_this<TetrahedronEdge
         template <typename DoubleType>
         void SetValues(const DoubleType &) const;
 
+        void SignalIfUpToDate();
+
         void MarkOld() const;
 
     private:
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index a1e69db..89203f0 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -103,7 +103,7 @@ void TriangleEdgeModel::SetValues(const TriangleEdgeScalarList<DoubleType> &nv)
 {
   model_data.set_values(nv);
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
@@ -124,10 +124,22 @@ void TriangleEdgeModel::SetValues(const DoubleType &v)
 {
   model_data.SetUniformValue(v);
 
-  MarkOld();
+  SignalIfUpToDate();
   uptodate = true;
 }
 
+//
+// Anything up to date while this model is not, has not used its values.
+// Marking it old while another model is being calculated would leave that model
+// up to date and depending on one that is not, so it would miss the next change
+void TriangleEdgeModel::SignalIfUpToDate()
+{
+  if (uptodate)
+  {
+    MarkOld();
+  }
+}
+
 void TriangleEdgeModel::MarkOld()
 {
   uptodate = false;
diff --git a/src/models/TriangleEdgeModel.hh b/src/models/TriangleEdgeModel.hh
index cd445cd..645262b 100644
--- a/src/models/TriangleEdgeModel.hh
+++ b/src/models/TriangleEdgeModel.hh
@@ -151,6 +151,8 @@ class TriangleEdgeModel : public std::enable_shared_from_this<TriangleEdgeModel>
         template <typename DoubleType>
         void SetValues(const DoubleType &) const;
 
+        void SignalIfUpToDate();
+
         void MarkOld() const;
 
     private:
-- 
2.43.0


From d39cd0681d7d16c55ef5815ffe612c009d7a61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 020/112] fix: contact equation with only some of the
 derivative models of an edge or element model no longer dereferences a null
 model

---
 src/Equation/ContactEquation.cc | 54 +++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..653c26d 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -789,10 +789,17 @@ void ContactEquation<DoubleType>::AssembleEdgeEquation(const std::string &emodel
       ConstEdgeModelPtr edm0 = region.GetEdgeModel(dermodel0);
       ConstEdgeModelPtr edm1 = region.GetEdgeModel(dermodel1);
 
-      if (!edm0)
+      if (!edm0 && !edm1)
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm0 || !edm1)
+      {
+        // all of them must exist
+        const std::string &missing = (!edm0) ? dermodel0 : dermodel1;
+        dsErrors::MissingContactEquationModel(region, *this, missing, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         EdgeScalarData<DoubleType> edd0(*ec);
@@ -1001,10 +1008,17 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquation(const std::string
       ConstTriangleEdgeModelPtr edm1 = region.GetTriangleEdgeModel(dermodel1);
       ConstTriangleEdgeModelPtr edm2 = region.GetTriangleEdgeModel(dermodel2);
 
-      if (!edm0)
+      if (!edm0 && !edm1 && !edm2)
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm0 || !edm1 || !edm2)
+      {
+        // all of them must exist
+        const std::string &missing = (!edm0) ? dermodel0 : (!edm1) ? dermodel1 : dermodel2;
+        dsErrors::MissingContactEquationModel(region, *this, missing, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
@@ -1242,10 +1256,17 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquation(const std::str
       ConstTetrahedronEdgeModelPtr edm2 = region.GetTetrahedronEdgeModel(dermodel2);
       ConstTetrahedronEdgeModelPtr edm3 = region.GetTetrahedronEdgeModel(dermodel3);
 
-      if (!edm0)
+      if (!edm0 && !edm1 && !edm2 && !edm3)
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm0 || !edm1 || !edm2 || !edm3)
+      {
+        // all of them must exist
+        const std::string &missing = (!edm0) ? dermodel0 : (!edm1) ? dermodel1 : (!edm2) ? dermodel2 : dermodel3;
+        dsErrors::MissingContactEquationModel(region, *this, missing, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
@@ -1486,10 +1507,17 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
       ConstEdgeModelPtr edm0 = region.GetEdgeModel(dermodel0);
       ConstEdgeModelPtr edm1 = region.GetEdgeModel(dermodel1);
 
-      if (!edm0)
+      if (!edm0 && !edm1)
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm0 || !edm1)
+      {
+        // all of them must exist
+        const std::string &missing = (!edm0) ? dermodel0 : dermodel1;
+        dsErrors::MissingContactEquationModel(region, *this, missing, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         EdgeScalarData<DoubleType> edd0(*ec);
@@ -1717,10 +1745,17 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
       ConstTriangleEdgeModelPtr edm1 = region.GetTriangleEdgeModel(dermodel1);
       ConstTriangleEdgeModelPtr edm2 = region.GetTriangleEdgeModel(dermodel2);
 
-      if (!edm0)
+      if (!edm0 && !edm1 && !edm2)
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm0 || !edm1 || !edm2)
+      {
+        // all of them must exist
+        const std::string &missing = (!edm0) ? dermodel0 : (!edm1) ? dermodel1 : dermodel2;
+        dsErrors::MissingContactEquationModel(region, *this, missing, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
@@ -1970,10 +2005,17 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquationOnCircuit(const
       ConstTetrahedronEdgeModelPtr edm2 = region.GetTetrahedronEdgeModel(dermodel2);
       ConstTetrahedronEdgeModelPtr edm3 = region.GetTetrahedronEdgeModel(dermodel3);
 
-      if (!edm0)
+      if (!edm0 && !edm1 && !edm2 && !edm3)
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm0 || !edm1 || !edm2 || !edm3)
+      {
+        // all of them must exist
+        const std::string &missing = (!edm0) ? dermodel0 : (!edm1) ? dermodel1 : (!edm2) ? dermodel2 : dermodel3;
+        dsErrors::MissingContactEquationModel(region, *this, missing, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+        return;
+      }
       else
       {
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
-- 
2.43.0


From 72f5a2c0fc0ccb61d4bccffe6ed4d1c3886c994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 021/112] fix: a contact equation keeps nodes shared with a
 contact that has no such equation

---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 653c26d..cc34bdb 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0


From a3b65e7cbf9ee60158bc309dfc4bc383e66bd80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 022/112] fix: replacing an equation by one for another
 variable releases the previous variable

---
 src/Geometry/Region.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 5311b3e..948340a 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1181,7 +1181,15 @@ void Region::AddEquation(EquationHolder &eq)
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream os;
+          os << "ERROR: Can't create equation if its variable is already being used\n"
+              << "New Equation: " << nm << ", Old Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+        }
+
+        variableEquationMap.erase(oeq.GetVariable());
         variableEquationMap[var] = nm;
       }
       else
-- 
2.43.0


From 8930beaafd1301d486d27aecc25909c1fcf7f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 023/112] fix: edge_volume_model is assembled in an equation
 without edge_model

---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From eb5453de6d589189346e029559529cf10c29d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 024/112] fix: an equation may give only one of
 volume_node0_model and volume_node1_model

---
 src/AutoEquation/ExprContactEquation.cc | 10 ++++++++--
 src/Equation/Equation.cc                | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/AutoEquation/ExprContactEquation.cc b/src/AutoEquation/ExprContactEquation.cc
index 3136f32..e14932d 100644
--- a/src/AutoEquation/ExprContactEquation.cc
+++ b/src/AutoEquation/ExprContactEquation.cc
@@ -121,8 +121,14 @@ void ExprContactEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec
             }
             else
             {
-              ContactEquation<DoubleType>::AssembleElementEdgeEquation(volume_node0_model_int_, m, v, w, node0model, 1.0, 0.0);
-              ContactEquation<DoubleType>::AssembleElementEdgeEquation(volume_node1_model_int_, m, v, w, node1model, 0.0, 1.0);
+              if (!volume_node0_model_int_.empty())
+              {
+                ContactEquation<DoubleType>::AssembleElementEdgeEquation(volume_node0_model_int_, m, v, w, node0model, 1.0, 0.0);
+              }
+              if (!volume_node1_model_int_.empty())
+              {
+                ContactEquation<DoubleType>::AssembleElementEdgeEquation(volume_node1_model_int_, m, v, w, node1model, 0.0, 1.0);
+              }
             }
         }
 
diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..af2f5d1 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -1276,8 +1276,14 @@ void Equation<DoubleType>::ElementNodeVolumeAssemble(const std::string &volume_n
     else
     {
       /// necessary for cylindrical coordinate system in 2d
-      TriangleEdgeCoupleAssemble(volume_node0_model, m, v, w, node0model, 1.0, 0.0);
-      TriangleEdgeCoupleAssemble(volume_node1_model, m, v, w, node1model, 0.0, 1.0);
+      if (!volume_node0_model.empty())
+      {
+        TriangleEdgeCoupleAssemble(volume_node0_model, m, v, w, node0model, 1.0, 0.0);
+      }
+      if (!volume_node1_model.empty())
+      {
+        TriangleEdgeCoupleAssemble(volume_node1_model, m, v, w, node1model, 0.0, 1.0);
+      }
     }
   }
   else if (dimension == 3)
@@ -1288,8 +1294,14 @@ void Equation<DoubleType>::ElementNodeVolumeAssemble(const std::string &volume_n
     }
     else
     {
-      TetrahedronEdgeCoupleAssemble(volume_node0_model, m, v, w, node0model, 1.0, 0.0);
-      TetrahedronEdgeCoupleAssemble(volume_node1_model, m, v, w, node1model, 0.0, 1.0);
+      if (!volume_node0_model.empty())
+      {
+        TetrahedronEdgeCoupleAssemble(volume_node0_model, m, v, w, node0model, 1.0, 0.0);
+      }
+      if (!volume_node1_model.empty())
+      {
+        TetrahedronEdgeCoupleAssemble(volume_node1_model, m, v, w, node1model, 0.0, 1.0);
+      }
     }
   }
 }
-- 
2.43.0


From a4518545ca6c8e1863e3496bccc86e3a09194bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 025/112] fix: a cleared compressed matrix with fewer entries
 than rows accepts new entries

---
 src/math/CompressedMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index 4659d11..fffc1aa 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -476,11 +476,11 @@ void CompressedMatrix<DoubleType>::ClearMatrix()
   }
 
   OutOfBandEntries_Real.clear();
-  OutOfBandEntries_Real.resize(sz);
+  OutOfBandEntries_Real.resize(this->size());
   if (GetMatrixType() == MatrixType::COMPLEX)
   {
     OutOfBandEntries_Imag.clear();
-    OutOfBandEntries_Imag.resize(sz);
+    OutOfBandEntries_Imag.resize(this->size());
   }
 }
 
-- 
2.43.0


From f3e6a60d4077aa59fd3bbb7904046717219c89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 026/112] fix: which of several contacts has a shared node no
 longer depends on memory addresses

---
 src/Geometry/Device.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/Device.cc b/src/Geometry/Device.cc
index cf248bd..13eb7c4 100644
--- a/src/Geometry/Device.cc
+++ b/src/Geometry/Device.cc
@@ -114,10 +114,10 @@ void Device::AddContact(const ContactPtr &cp)
       warning_list[os.str()] += 1;
     }
 
-    //// Guarantee that vector is sorted based on pointer address
+    //// Guarantee that vector is sorted, by name so that the order does not depend on memory addresses
     std::vector<ContactPtr> &cplist = coordinateIndexToContact[ci];
     cplist.push_back(cp);
-    std::sort(cplist.begin(), cplist.end());
+    std::sort(cplist.begin(), cplist.end(), [](ConstContactPtr a, ConstContactPtr b) {return a->GetName() < b->GetName();});
   }
   if (!warning_list.empty())
   {
@@ -186,10 +186,10 @@ void Device::AddInterface(const InterfacePtr &ip)
         warning_list[os.str()] += 1;
       }
 
-      //// Guarantee that vector is sorted based on pointer address
+      //// Guarantee that vector is sorted, by name so that the order does not depend on memory addresses
       std::vector<InterfacePtr> &iplist = coordinateIndexToInterface[ii];
       iplist.push_back(ip);
-      std::sort(iplist.begin(), iplist.end());
+      std::sort(iplist.begin(), iplist.end(), [](ConstInterfacePtr a, ConstInterfacePtr b) {return a->GetName() < b->GetName();});
     }
   }
   if (!warning_list.empty())
-- 
2.43.0


From dfbfed121be4ce57140059ab5f24b3508819b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 027/112] fix: the node of the largest relative error was
 reported as that of the largest absolute error

---
 src/Equation/Equation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index af2f5d1..276ddce 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -286,6 +286,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     DoubleType aerr = 0.0;
     DoubleType rerr = 0.0;
     size_t     aerr_node = 0;
+    size_t     rerr_node = 0;
 
     for (size_t i = 0; i < upds.size(); ++i)
     {
@@ -304,6 +305,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
         if (nrerror > rerr)
         {
             rerr = nrerror;
+            rerr_node = i;
         }
 
     }
@@ -311,7 +313,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     setAbsError(aerr);
     setRelError(rerr);
     setAbsErrorNodeIndex(aerr_node);
-    setRelErrorNodeIndex(aerr_node);
+    setRelErrorNodeIndex(rerr_node);
 //    dsErrors::EquationMathErrorInfo(*this, rerr, aerr, OutputStream::OutputType::INFO);
 }
 
-- 
2.43.0


From f7108b34fdcb4ce150b28a067158a8185f857207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 028/112] fix: a solve whose update is not a number was
 reported as converged

---
 src/Circuit/data/NodeKeeper.cc |  6 ++++--
 src/Equation/Equation.cc       | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 9f8847d..5dc81e7 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -14,6 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <sstream>
 #include <climits>
 #include <cmath>
+#include <limits>
 
 
 NodeKeeper *NodeKeeper::instance_ = 0;
@@ -353,11 +354,12 @@ void NodeKeeper::UpdateSolution(const std::string &key, const Solution &rhs)
         const double nval = upd + oval;
         sol->operator[](cind) = nval;
 
-        const double n1 = std::abs(upd);
+        //// an update that is not a number is not small
+        const double n1 = std::isnan(upd) ? std::numeric_limits<double>::infinity() : std::abs(upd);
         aerr += n1;
 
         const double n2 = std::abs(nval);
-        const double nrerror =  n1 / (n2 + minError);
+        const double nrerror =  std::isnan(upd) ? n1 : n1 / (n2 + minError);
         if (nrerror > rerr)
             rerr = nrerror;
 
diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index 276ddce..1335cf1 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -33,6 +33,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Permutation.hh"
 
 #include <cmath>
+#include <limits>
 using std::abs;
 
 namespace EquationEnum
@@ -292,6 +293,16 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     {
         const DoubleType n1 = abs(upds[i]);
 
+        //// an update that is not a number is not small
+        if (n1 != n1)
+        {
+          aerr = std::numeric_limits<DoubleType>::infinity();
+          aerr_node = i;
+          rerr = aerr;
+          rerr_node = i;
+          break;
+        }
+
         if (n1 > aerr)
         {
           aerr = n1;
-- 
2.43.0


From 1400e53de8ecf01fe3deebc055c51eb8e25c1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 029/112] fix: an error during a solve left the solution of the
 unfinished iteration behind

---
 src/math/Newton.cc | 20 ++++++++++++++++++++
 src/math/Newton.hh |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..cece951 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -614,6 +614,25 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 {
   MasterGILControl gil;
 
+  bool have_backup = false;
+  try
+  {
+    return SolveWithBackup(itermethod, timeinfo, ohm, have_backup);
+  }
+  catch (...)
+  {
+    //// an error must not leave behind the solution of an unfinished iteration
+    if (have_backup)
+    {
+      RestoreSolutions();
+    }
+    throw;
+  }
+}
+
+template <typename DoubleType>
+bool Newton<DoubleType>::SolveWithBackup(LinearSolver<DoubleType> &itermethod, const TimeMethods::TimeParams<DoubleType> &timeinfo, ObjectHolderMap_t *ohm, bool &have_backup)
+{
   NodeKeeper &nk = NodeKeeper::instance();
   GlobalData &gdata = GlobalData::GetInstance();
   const GlobalData::DeviceList_t      &dlist = gdata.GetDeviceList();
@@ -640,6 +659,7 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
   bool converged = false;
 
   BackupSolutions();
+  have_backup = true;
 
   /////
   ///// Permutation vector
diff --git a/src/math/Newton.hh b/src/math/Newton.hh
index 373d500..1edc770 100644
--- a/src/math/Newton.hh
+++ b/src/math/Newton.hh
@@ -203,6 +203,8 @@ class Newton {
         template <typename T>
         void LoadIntoRHSPermutated(const RHSEntryVec<DoubleType> &, std::vector<T> &, const permvec_t &, T scl = 1.0, size_t offset = 0);
     private:
+        bool SolveWithBackup(LinearSolver<DoubleType> &, const TimeMethods::TimeParams<DoubleType> &, ObjectHolderMap_t *, bool &);
+
         void InitializeTransientAssemble(const TimeMethods::TimeParams<DoubleType> &, size_t, DoubleVec_t<DoubleType> &);
         bool CheckTransientProjection(const TimeMethods::TimeParams<DoubleType> &, const DoubleVec_t<DoubleType> &, ObjectHolderMap_t *ohm);
         void UpdateTransientCurrent(const TimeMethods::TimeParams<DoubleType> &, size_t, const DoubleVec_t<DoubleType> &, const DoubleVec_t<DoubleType> &);
-- 
2.43.0


From 547666d828e19a16465b68573993279795506651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 030/112] fix: divergence of a solve compared the errors of
 different devices with each other

---
 src/math/Newton.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index cece951..53a44a3 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -36,6 +36,7 @@ SPDX-License-Identifier: Apache-2.0
 
 #include <sstream>
 #include <iomanip>
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 using std::abs;
@@ -770,6 +771,8 @@ bool Newton<DoubleType>::SolveWithBackup(LinearSolver<DoubleType> &itermethod, c
       GlobalData::DeviceList_t::const_iterator dit  = dlist.begin();
       GlobalData::DeviceList_t::const_iterator dend = dlist.end();
       ObjectHolderList_t dobjlist;
+      DoubleType max_rel_err = 0.0;
+      DoubleType max_abs_err = 0.0;
       for ( ; dit != dend; ++dit)
       {
         const Device &device = *(dit->second);
@@ -788,24 +791,28 @@ bool Newton<DoubleType>::SolveWithBackup(LinearSolver<DoubleType> &itermethod, c
         }
 
 
-        /* if are our is higher than our convergence criteria and it is running away*/
-        bool diverged = ((devrerr > relLimit) && (devrerr > last_rel_err))
-           || ((devaerr > absLimit) && (devaerr > last_abs_err));
-        if (diverged)
-        {
-          divergence_count += 1;
-        }
-        else
-        {
-          divergence_count = 0;
-        }
-        last_rel_err = devrerr;
-        last_abs_err = devaerr;
+        max_rel_err = std::max(max_rel_err, devrerr);
+        max_abs_err = std::max(max_abs_err, devaerr);
 
         converged = converged && (devrerr < relLimit) && (devaerr < absLimit);
 
         max_error_hit = max_error_hit || (devaerr > maxLimit);
       }
+
+      /* if are our is higher than our convergence criteria and it is running away*/
+      bool diverged = ((max_rel_err > relLimit) && (max_rel_err > last_rel_err))
+         || ((max_abs_err > absLimit) && (max_abs_err > last_abs_err));
+      if (diverged)
+      {
+        divergence_count += 1;
+      }
+      else
+      {
+        divergence_count = 0;
+      }
+      last_rel_err = max_rel_err;
+      last_abs_err = max_abs_err;
+
       if (p_iteration_map)
       {
         (*p_iteration_map)["devices"] = ObjectHolder(dobjlist);
-- 
2.43.0


From f735f226cba0a36609669e74c81ca28a6769c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 031/112] fix: a custom solver not returning a dictionary for
 solve was taken as having left the solution of the previous iteration

---
 src/math/ExternalPreconditioner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/ExternalPreconditioner.cc b/src/math/ExternalPreconditioner.cc
index 47daa32..43c0ddb 100644
--- a/src/math/ExternalPreconditioner.cc
+++ b/src/math/ExternalPreconditioner.cc
@@ -274,6 +274,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -334,6 +335,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
-- 
2.43.0


From 70e81989aa9f2cbe8ce5d19e3db65cf6040e64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 032/112] fix: switching the precision of the solver between
 time steps lost the history of the previous steps

---
 src/math/TimeData.cc | 40 ++++++++++++++++++++++++++++++++++++++++
 src/math/TimeData.hh |  3 +++
 2 files changed, 43 insertions(+)

diff --git a/src/math/TimeData.cc b/src/math/TimeData.cc
index a3563ee..4f00f1a 100644
--- a/src/math/TimeData.cc
+++ b/src/math/TimeData.cc
@@ -15,6 +15,36 @@ TimeData<double> *TimeData<double>::instance = 0;
 #include "Float128.hh"
 template <>
 TimeData<float128> *TimeData<float128>::instance = 0;
+
+namespace {
+template <typename DoubleType>
+struct OtherPrecision;
+
+template <>
+struct OtherPrecision<double>
+{
+  using type = float128;
+};
+
+template <>
+struct OtherPrecision<float128>
+{
+  using type = double;
+};
+
+template <typename To, typename From>
+void Convert(std::vector<std::vector<To>> &to, const std::vector<std::vector<From>> &from)
+{
+  for (size_t i = 0; i < from.size(); ++i)
+  {
+    to[i].resize(from[i].size());
+    for (size_t j = 0; j < from[i].size(); ++j)
+    {
+      to[i][j] = static_cast<To>(from[i][j]);
+    }
+  }
+}
+}
 #endif
 
 template <typename DoubleType>
@@ -28,6 +58,16 @@ TimeData<DoubleType> &TimeData<DoubleType>::GetInstance()
     if (!instance)
     {
         instance = new TimeData<DoubleType>;
+#ifdef DEVSIM_EXTENDED_PRECISION
+        // the previous steps may have been taken by the solver of the other precision
+        using OtherData = TimeData<typename OtherPrecision<DoubleType>::type>;
+        if (OtherData::instance)
+        {
+            Convert(instance->IData, OtherData::instance->IData);
+            Convert(instance->QData, OtherData::instance->QData);
+            OtherData::DestroyInstance();
+        }
+#endif
     }
     return *instance;
 }
diff --git a/src/math/TimeData.hh b/src/math/TimeData.hh
index 28756b9..5a657f6 100644
--- a/src/math/TimeData.hh
+++ b/src/math/TimeData.hh
@@ -44,6 +44,9 @@ class TimeData
 
     private:
 
+        template <typename OtherType>
+        friend class TimeData;
+
         TimeData();
         TimeData(TimeData &);
         TimeData &operator=(TimeData &);
-- 
2.43.0


From d32bc568941442a8bc892b61d67484a4fe4980d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 033/112] fix: gradients of node models in three dimensions
 used y in place of z

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From 68eedb2ca9bb03faafd46511db83d458ee5e3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 034/112] fix: noise at a node whose equation is also in its
 interface equation left out the latter's or its own row

---
 src/Equation/Equation.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index 1335cf1..e667f4e 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -418,13 +418,19 @@ void Equation<DoubleType>::DefaultNoiseUpdate(const std::string &outputname, con
     const ConstNodeList::const_iterator nend = nl.end();
     for ( ; nit != nend; ++nit)
     {
-        // TODO: we need to make sure we handle when the equation was copied, KeepCopy() == true
-        const size_t eqrow = permvec[myregion->GetEquationNumber(ind, *nit)].GetRow();
+        const size_t eqnum = myregion->GetEquationNumber(ind, *nit);
+        const PermutationEntry &entry = permvec[eqnum];
+        const size_t eqrow = entry.GetRow();
 
         if (eqrow != size_t(-1))
         {
           const size_t eqindex = (*nit)->GetIndex();
-          const dsMath::ComplexDouble_t<DoubleType> &upd  = result[eqrow];
+          dsMath::ComplexDouble_t<DoubleType> upd  = result[eqrow];
+          // the bulk equation is in both rows
+          if (entry.KeepCopy())
+          {
+            upd += result[eqnum];
+          }
           realout[eqindex] = upd.real();
           imagout[eqindex] = upd.imag();
         }
-- 
2.43.0


From 71c8dc363b9edef2f740a4a4aadef717cb687d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 035/112] fix: setting a value at a node left the copy of the
 values in the other precision as it was

---
 src/models/ModelDataHolder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..fc775fd 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -294,7 +294,8 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
   expand_uniform();
 
   float128_values[index] = nv;
-
+  // the copy in the other precision is no longer valid
+  clear_type(MDtype::DOUBLE);
 }
 #endif
 
@@ -317,6 +318,10 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
     expand_uniform();
 
     double_values[index] = nv;
+#ifdef DEVSIM_EXTENDED_PRECISION
+    // the copy in the other precision is no longer valid
+    clear_type(MDtype::EXTENDED);
+#endif
   }
 }
 
-- 
2.43.0


From 2ed8672739f17b6f4c52910c37752b4f475fd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 036/112] fix: the direct solver was left with a pointer to
 deleted values of the matrix in extended precision

---
 src/math/MKLPardisoPreconditioner.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index a716ace..b7f3297 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -79,6 +79,11 @@ class MKLPardisoData {
   const int *ia;
   const int *ja;
   const void *a;
+#ifdef DEVSIM_EXTENDED_PRECISION
+  // the solver refers to the values of the matrix for iterative refinement
+  DoubleVec_t<double> real_values;
+  ComplexDoubleVec_t<double> complex_values;
+#endif
 };
 
 MKLPardisoData::MKLPardisoData(int numeqn) {
@@ -260,7 +265,8 @@ bool MKLPardisoData::LUFactorMatrix(CompressedMatrix<float128> *cm)
   if (cm->GetMatrixType() == MatrixType::REAL)
   {
     const DoubleVec_t<float128> &fvals = cm->GetReal();
-    DoubleVec_t<double> dvals(fvals.size());
+    DoubleVec_t<double> &dvals = real_values;
+    dvals.resize(fvals.size());
     for (size_t i = 0; i < fvals.size(); ++i)
     {
       dvals[i] = static_cast<double>(fvals[i]);
@@ -270,7 +276,8 @@ bool MKLPardisoData::LUFactorMatrix(CompressedMatrix<float128> *cm)
   else if (cm->GetMatrixType() == MatrixType::COMPLEX)
   {
     const ComplexDoubleVec_t<float128> &fvals = cm->GetComplex();
-    ComplexDoubleVec_t<double> dvals(fvals.size());
+    ComplexDoubleVec_t<double> &dvals = complex_values;
+    dvals.resize(fvals.size());
     for (size_t i = 0; i < fvals.size(); ++i)
     {
       dvals[i] = ComplexDouble_t<double>(static_cast<double>(fvals[i].real()), static_cast<double>(fvals[i].imag()));
-- 
2.43.0


From cf3bd08bd37d763afaf9b716cea08606be2787ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 037/112] fix: add_circuit_node ignored its initial value and
 its type of update

---
 src/Circuit/data/CircuitNode.cc |  4 ++--
 src/Circuit/data/CircuitNode.hh |  6 +++++-
 src/Circuit/data/NodeKeeper.cc  | 19 +++++++++++++++----
 src/Circuit/data/NodeKeeper.hh  |  2 +-
 src/commands/CircuitCommands.cc |  6 +++---
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/Circuit/data/CircuitNode.cc b/src/Circuit/data/CircuitNode.cc
index f536370..1e45939 100644
--- a/src/Circuit/data/CircuitNode.cc
+++ b/src/Circuit/data/CircuitNode.cc
@@ -7,11 +7,11 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "CircuitNode.hh"
 
-CircuitNode::CircuitNode() : nodeNumber_(0), nodeType_(CircuitNodeType::DEFAULT), updateType(CircuitUpdateType::DEFAULT)
+CircuitNode::CircuitNode() : nodeNumber_(0), nodeType_(CircuitNodeType::DEFAULT), updateType(CircuitUpdateType::DEFAULT), initialValue(0.0)
 {
 }
 
-CircuitNode::CircuitNode(CircuitNodeType nt, CircuitUpdateType ut) : nodeNumber_(0), nodeType_(nt), updateType(ut)
+CircuitNode::CircuitNode(CircuitNodeType nt, CircuitUpdateType ut, double value) : nodeNumber_(0), nodeType_(nt), updateType(ut), initialValue(value)
 {
 }
 
diff --git a/src/Circuit/data/CircuitNode.hh b/src/Circuit/data/CircuitNode.hh
index cfd0ae0..11f853e 100644
--- a/src/Circuit/data/CircuitNode.hh
+++ b/src/Circuit/data/CircuitNode.hh
@@ -41,6 +41,9 @@ class CircuitNode {
         inline const char * getCircuitNodeTypeStr()
             {return CircuitNodeTypeStr[static_cast<size_t>(nodeType_)];}
 
+        inline double getInitialValue()
+            {return initialValue;}
+
         inline bool isGROUND() {return (nodeType_==CircuitNodeType::GROUND);}
 
         size_t GetNumber()
@@ -50,7 +53,7 @@ class CircuitNode {
         friend class NodeKeeper;
         /* Modified Nodal Analysis */
         CircuitNode();
-        explicit CircuitNode(CircuitNodeType, CircuitUpdateType);
+        explicit CircuitNode(CircuitNodeType, CircuitUpdateType, double);
         CircuitNode operator=(const CircuitNode &);
 
         inline bool  isMNA() {return (nodeType_== CircuitNodeType::MNA);}
@@ -63,6 +66,7 @@ class CircuitNode {
         size_t           nodeNumber_;
         CircuitNodeType nodeType_;
         CircuitUpdateType      updateType;
+        double                 initialValue;
 };
 
 
diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 5dc81e7..b90fde3 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -50,7 +50,7 @@ NodeKeeper::~NodeKeeper() {
  * Add a node with the suggested name
  * and a default type
  */
-CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt, CircuitUpdateType ut)
+CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt, CircuitUpdateType ut, double value)
 {
 //    os << "NodeKeeper::AddNode\n";
 
@@ -77,7 +77,7 @@ CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt,
         os << name << " is being added\n";
         OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
 */
-        CircuitNodePtr node=CircuitNodePtr(new CircuitNode(nt, ut));
+        CircuitNodePtr node=CircuitNodePtr(new CircuitNode(nt, ut, value));
         NodeTable_[name]=node;
     }
     return NodeTable_[name];
@@ -268,8 +268,18 @@ void NodeKeeper::CreateSolution(const std::string &key)
 
     // technically this needs to be deleted in the destructor
     // migrate to smart pointer
-    // Should call initializer for each node (dc case only)
     Sol_[key] = new Solution(numberOfNodes_,0.0);
+    if (key == "dcop")
+    {
+        for (NodeTable_t::iterator it = NodeTable_.begin(); it != NodeTable_.end(); ++it)
+        {
+            CircuitNode &cn = *(it->second);
+            if (!cn.isGROUND())
+            {
+                Sol_[key]->operator[](cn.GetNumber()) = cn.getInitialValue();
+            }
+        }
+    }
     std::ostringstream os;
     os << "creating solution " << key << " with " << numberOfNodes_ << " nodes" << "\n";
     OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
@@ -341,7 +351,8 @@ void NodeKeeper::UpdateSolution(const std::string &key, const Solution &rhs)
         }
         else if (ut == CircuitUpdateType::POSITIVE)
         {
-            while ((upd + oval) <=  0.0)
+            /// halving the update only helps from a positive value
+            while ((oval > 0.0) && std::isfinite(upd) && ((upd + oval) <=  0.0))
             {
                 upd /= 2.0;
             }
diff --git a/src/Circuit/data/NodeKeeper.hh b/src/Circuit/data/NodeKeeper.hh
index f317bbc..450da79 100644
--- a/src/Circuit/data/NodeKeeper.hh
+++ b/src/Circuit/data/NodeKeeper.hh
@@ -50,7 +50,7 @@ class NodeKeeper {
         static void delete_instance();
 
         CircuitNodePtr AddNode(const std::string &/*name*/,
-                CircuitNodeType x=CircuitNodeType::DEFAULT, CircuitUpdateType y=CircuitUpdateType::DEFAULT);
+                CircuitNodeType x=CircuitNodeType::DEFAULT, CircuitUpdateType y=CircuitUpdateType::DEFAULT, double value=0.0);
 
         CircuitNodePtr AddNodeAlias(const std::string &/*alias*/, const std::string &/*name*/);
 
diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 0c7d982..c57677b 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -42,14 +42,14 @@ void AddGroundNode()
     }
 }
 
-void CreateNode(const std::string &name, CircuitUpdateType ut)
+void CreateNode(const std::string &name, CircuitUpdateType ut, double value = 0.0)
 {
     AddGroundNode();
 
     NodeKeeper &nk = NodeKeeper::instance();
     if (!nk.IsCircuitNode(name))
     {
-        nk.AddNode(name, CircuitNodeType::DEFAULT, ut);
+        nk.AddNode(name, CircuitNodeType::DEFAULT, ut, value);
     }
 
 }
@@ -130,7 +130,7 @@ void addCircuitNodeCmd(CommandHandler &data)
     }
     else
     {
-        CreateNode(name, CircuitUpdateType::DEFAULT);
+        CreateNode(name, updateType, value);
         data.SetEmptyResult();
     }
 
-- 
2.43.0


From cd07ea38c97ac8f88a2dc13b4211c022f18632af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 038/112] fix: a circuit element connected to an alias got a
 node of its own

---
 src/Circuit/data/NodeKeeper.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index b90fde3..bce6566 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -62,6 +62,12 @@ CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt,
     }
 
 
+    NodeAliasTable_t::const_iterator ait = NodeAliasTable_.find(name);
+    if (ait != NodeAliasTable_.end())
+    {
+        return NodeTable_[ait->second];
+    }
+
     if (NodeTable_.count(name))
     {
 /*
-- 
2.43.0


From ae678a0ba1304278cb946a378c8550f13cf8edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 039/112] fix: models using a circuit node by another of its
 names did not follow its value

---
 src/Circuit/data/NodeKeeper.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index bce6566..4248afd 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -578,7 +578,18 @@ void NodeKeeper::SetNodeValue(const std::string &solutionname, const std::string
 void NodeKeeper::TriggerCallbackOnNode(const std::string &nm)
 {
     GlobalData &gdata = GlobalData::GetInstance();
-    gdata.SignalCallbacksOnGlobal(nm);
+    NodeAliasTable_t::const_iterator ait = NodeAliasTable_.find(nm);
+    const std::string node = (ait == NodeAliasTable_.end()) ? nm : ait->second;
+
+    // models may refer to a node by any of its names
+    gdata.SignalCallbacksOnGlobal(node);
+    for (ait = NodeAliasTable_.begin(); ait != NodeAliasTable_.end(); ++ait)
+    {
+        if (ait->second == node)
+        {
+            gdata.SignalCallbacksOnGlobal(ait->first);
+        }
+    }
 }
 
 
@@ -588,9 +599,5 @@ void NodeKeeper::TriggerCallbacksOnNodes()
     {
         TriggerCallbackOnNode(it->first);
     }
-    for (NodeAliasTable_t::const_iterator it = NodeAliasTable_.begin(); it != NodeAliasTable_.end(); ++it)
-    {
-        TriggerCallbackOnNode(it->first);
-    }
 }
 
-- 
2.43.0


From 9fda45abf9810957b92aa7de1e2d5e01b80dcb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 040/112] fix: no solve was possible after asking for the nodes
 of an empty circuit

---
 src/Circuit/data/NodeKeeper.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 4248afd..0bd1fd2 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -222,7 +222,7 @@ size_t NodeKeeper::GetIndexNumber(const std::string &name)
     NodeTable_t::iterator it = NodeTable_.find(node);
     size_t index = size_t(-1);
 
-    if (it != NodeTable_.end())
+    if ((it != NodeTable_.end()) && !it->second->isGROUND())
     {
         CircuitNode &cn = *(it->second);
         index = cn.GetNumber();
@@ -514,7 +514,15 @@ double NodeKeeper::GetRelError(const std::string &nm)
 
 bool NodeKeeper::HaveNodes()
 {
-    return NodeTable_.size() != 0;
+    // ground is not solved for
+    for (NodeTable_t::const_iterator it = NodeTable_.begin(); it != NodeTable_.end(); ++it)
+    {
+        if (!it->second->isGROUND())
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool NodeKeeper::IsCircuitNode(const std::string &name)
-- 
2.43.0


From c1ccb767bdbe6a4037341696dc0a0eec24915ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 041/112] fix: circuit commands failing for their arguments
 still had an effect

---
 src/commands/CircuitCommands.cc | 37 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index c57677b..f7dff53 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -199,6 +199,23 @@ circuitElementCmd(CommandHandler &data)
         }
     }
 
+    if (std::string("VvIiCcLlRr").find(type) == std::string::npos)
+    {
+        std::ostringstream os;
+        os << "Cannot figure out what element type -name  \"" << name <<
+              "\" is\n";
+        data.SetErrorResult(os.str());
+        return;
+    }
+
+    if (InstanceKeeper::instance().getInstanceModel(name))
+    {
+        std::ostringstream os;
+        os << "Circuit element -name  \"" << name << "\" already exists\n";
+        data.SetErrorResult(os.str());
+        return;
+    }
+
     //// Should not fail
     CreateNode(n1, CircuitUpdateType::DEFAULT);
     CreateNode(n2, CircuitUpdateType::DEFAULT);
@@ -242,20 +259,6 @@ circuitElementCmd(CommandHandler &data)
         ik.addInstanceModel(im);
         data.SetEmptyResult();
     }
-    else
-    {
-        std::ostringstream os;
-        os << "Cannot figure out what element type -name  \"" << name <<
-              "\" is\n";
-        errorString += os.str();
-    }
-
-    if (!errorString.empty())
-    {
-        data.SetErrorResult(errorString);
-        return;
-    }
-
 }
 
 void
@@ -381,6 +384,7 @@ circuitNodeAliasCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -437,6 +441,7 @@ void circuitGetCircuitNodeListCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -478,6 +483,7 @@ void circuitGetCircuitSolutionListCmd (CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -511,6 +517,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -571,6 +578,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   InstanceKeeper::delete_instance();
@@ -595,6 +603,7 @@ circuitGetCircuitEquationNumberCmd (CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // const std::string commandName = data.GetCommandName();
-- 
2.43.0


From 25af6b5459df008234c8a395721b2c6fc2386be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 042/112] fix: models using a circuit node kept its value after
 the circuit was deleted

---
 src/commands/CircuitCommands.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index f7dff53..bdaa739 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -581,6 +581,9 @@ circuitDeleteCircuitCmd(CommandHandler &data)
       return;
   }
 
+  // models using the values of the nodes have to notice
+  NodeKeeper::instance().TriggerCallbacksOnNodes();
+
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
 };
-- 
2.43.0


From f42264b55a8c5bdbc5f19333866ce5f63bef8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 043/112] fix: solving a circuit whose matrix has no entries
 read outside of an empty vector

---
 src/math/MKLPardisoPreconditioner.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index b7f3297..285cb91 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -203,11 +203,11 @@ bool MKLPardisoData::LUFactorMatrixImpl(CompressedMatrix<DoubleType> *cm, const
   const IntVec_t    &Cols = cm->GetCols();
 
 #ifdef USE_CCM
-  ja = &Rows[0];
-  ia = &Cols[0];
+  ja = Rows.data();
+  ia = Cols.data();
 #else
-  ia = &Rows[0];
-  ja = &Cols[0];
+  ia = Rows.data();
+  ja = Cols.data();
 #endif
   a  = a_input;
 
@@ -247,12 +247,12 @@ bool MKLPardisoData::LUFactorMatrix(CompressedMatrix<double> *cm)
   if (cm->GetMatrixType() == MatrixType::REAL)
   {
     const auto &mat = cm->GetReal();
-    ret = LUFactorMatrixImpl(cm, reinterpret_cast<const void *>(&(mat[0])));
+    ret = LUFactorMatrixImpl(cm, reinterpret_cast<const void *>(mat.data()));
   }
   else if (cm->GetMatrixType() == MatrixType::COMPLEX)
   {
     const auto &mat = cm->GetComplex();
-    ret = LUFactorMatrixImpl(cm, reinterpret_cast<const void *>(&(mat[0])));
+    ret = LUFactorMatrixImpl(cm, reinterpret_cast<const void *>(mat.data()));
   }
   return ret;
 }
@@ -271,7 +271,7 @@ bool MKLPardisoData::LUFactorMatrix(CompressedMatrix<float128> *cm)
     {
       dvals[i] = static_cast<double>(fvals[i]);
     }
-    ret = LUFactorMatrixImpl(cm, reinterpret_cast<void *>(&dvals[0]));
+    ret = LUFactorMatrixImpl(cm, reinterpret_cast<const void *>(dvals.data()));
   }
   else if (cm->GetMatrixType() == MatrixType::COMPLEX)
   {
@@ -282,7 +282,7 @@ bool MKLPardisoData::LUFactorMatrix(CompressedMatrix<float128> *cm)
     {
       dvals[i] = ComplexDouble_t<double>(static_cast<double>(fvals[i].real()), static_cast<double>(fvals[i].imag()));
     }
-    ret = LUFactorMatrixImpl(cm, reinterpret_cast<void *>(&dvals[0]));
+    ret = LUFactorMatrixImpl(cm, reinterpret_cast<const void *>(dvals.data()));
   }
   return ret;
 }
-- 
2.43.0


From 1c48041a62125ae34240b1fe2b71c98b80530e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 044/112] fix: delete_circuit raised an error after deleting
 the circuit

---
 src/commands/CircuitCommands.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index bdaa739..300de3c 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -586,6 +586,8 @@ circuitDeleteCircuitCmd(CommandHandler &data)
 
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
+
+  data.SetEmptyResult();
 };
 
 void
-- 
2.43.0


From bcfd5b2cd1d92875962dd8ddae5cef1a7667e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 045/112] fix: strings that cannot be encoded crashed, and
 names were cut at a null character

---
 src/pythonapi/ObjectHolder.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 27ce406..9f861fe 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -128,13 +128,21 @@ std::string GetStringFromStringObject(PyObject *obj)
   std::string ret;
   if (PyUnicode_CheckExact(obj))
   {
-    PyObject *sobj = PyUnicode_AsUTF8String(obj);
-    ret = PyBytes_AsString(sobj);
-    Py_DECREF(sobj);
+    // surrogates do not have an encoding
+    PyObject *sobj = PyUnicode_AsEncodedString(obj, "utf-8", "backslashreplace");
+    if (sobj)
+    {
+      ret.assign(PyBytes_AsString(sobj), PyBytes_Size(sobj));
+      Py_DECREF(sobj);
+    }
+    else
+    {
+      PyErr_Clear();
+    }
   }
   else if (PyBytes_CheckExact(obj))
   {
-    ret = PyBytes_AsString(obj);
+    ret.assign(PyBytes_AsString(obj), PyBytes_Size(obj));
   }
   return ret;
 }
@@ -154,8 +162,15 @@ std::string ObjectHolder::GetString() const
     if (ret.empty())
     {
       PyObject *strobj = PyObject_Str(obj);
-      ret = GetStringFromStringObject(strobj);
-      Py_DECREF(strobj);
+      if (strobj)
+      {
+        ret = GetStringFromStringObject(strobj);
+        Py_DECREF(strobj);
+      }
+      else
+      {
+        PyErr_Clear();
+      }
     }
   }
   return ret;
-- 
2.43.0


From 1cff35fc68e0536d22d12c0a97dac1e3197be660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 046/112] fix: integer arguments of another type were read as
 0, and out of range integers left an error pending

---
 src/pythonapi/ObjectHolder.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 9f861fe..1c62da5 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -222,6 +222,10 @@ ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const
       ok  = true;
       val = (ret == 1);
     }
+    else
+    {
+      PyErr_Clear();
+    }
   }
 
   return std::make_pair(ok, val);
@@ -232,7 +236,7 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
 {
   EnsurePythonGIL gil;
 
-  bool   ok = true;
+  bool   ok = false;
   int    val= 0;
 
   ObjectHolder::LongEntry_t lent = this->GetLong();
@@ -245,10 +249,6 @@ ObjectHolder::IntegerEntry_t ObjectHolder::GetInteger() const
       ok = true;
       val = ret;
     }
-    else
-    {
-      ok = false;
-    }
   }
   return std::make_pair(ok, val);
 }
@@ -264,10 +264,11 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
   if (object_)
   {
     PyObject *obj = reinterpret_cast<PyObject *>(object_);
-    if (PyLong_CheckExact(obj))
+    if (PyIndex_Check(obj))
     {
-      ok = true;
-      val = PyLong_AsLong(obj);
+      val = PyNumber_AsSsize_t(obj, PyExc_OverflowError);
+      ok = !PyErr_Occurred();
+      PyErr_Clear();
     }
     else if (PyUnicode_CheckExact(obj) || PyBytes_CheckExact(obj))
     {
@@ -279,8 +280,8 @@ ObjectHolder::LongEntry_t ObjectHolder::GetLong() const
       {
         if ((*p) == 0)
         {
-          ok = true;
-          val = PyLong_AsLong(iobj);
+          val = PyNumber_AsSsize_t(iobj, PyExc_OverflowError);
+          ok = !PyErr_Occurred();
         }
         Py_DECREF(iobj);
       }
-- 
2.43.0


From 93079fda7d14926b238dda0bcb0d3da18520e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 047/112] fix: entries of custom equations outside of the
 matrix were written to memory

---
 src/math/Newton.cc | 10 ++++++++--
 src/math/Newton.hh |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 53a44a3..fe0c4ed 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -124,6 +124,8 @@ size_t Newton<DoubleType>::NumberEquationsAndSetDimension()
     }
   }
 
+  numberEquations = eqnnum;
+
   return eqnnum;
 }
 
@@ -1380,6 +1382,10 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
 {
   std::vector<ObjectHolder> objects;
 
+  auto isEquation = [this](const ObjectHolder::IntegerEntry_t &x) {
+    return x.first && (x.second >= 0) && (static_cast<size_t>(x.second) < numberEquations);
+  };
+
   //// Read in the entries here
   if (w != dsMathEnum::WhatToLoad::MATRIXONLY)
   {
@@ -1399,7 +1405,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
         ObjectHolder::IntegerEntry_t row = objects[i].GetInteger();
         ObjectHolder::DoubleEntry_t val = objects[i + 1].GetDouble();
 
-        if (row.first && val.first)
+        if (isEquation(row) && val.first)
         {
           rhs.push_back(std::make_pair(row.second, val.second));
         }
@@ -1434,7 +1440,7 @@ void Newton<DoubleType>::AssembleTclEquation(const std::string &name, ObjectHold
         ObjectHolder::IntegerEntry_t col = objects[i + 1].GetInteger();
         ObjectHolder::DoubleEntry_t  val = objects[i + 2].GetDouble();
 
-        if (row.first && col.first && val.first)
+        if (isEquation(row) && isEquation(col) && val.first)
         {
           mat.push_back(RealRowColVal<DoubleType>(row.second, col.second, val.second));
         }
diff --git a/src/math/Newton.hh b/src/math/Newton.hh
index 1edc770..0d34e73 100644
--- a/src/math/Newton.hh
+++ b/src/math/Newton.hh
@@ -250,6 +250,7 @@ class Newton {
 
 
         size_t dimension = 0;
+        size_t numberEquations = 0;
 
 };
 }
-- 
2.43.0


From bb56efbd7721f46e8f068247d24b9dc1a7c3aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 048/112] fix: sequences raising an error while being read
 crashed

---
 src/pythonapi/ObjectHolder.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 1c62da5..12d5bd9 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -334,14 +334,27 @@ bool ObjectHolder::GetListOfObjects(ObjectHolderList_t &objs) const
   if (obj && PySequence_Check(obj))
   {
     ok = true;
-    size_t len = PySequence_Size(obj);
-    objs.resize(len);
-    for (size_t i = 0; i < len; ++i)
+    const Py_ssize_t len = PySequence_Size(obj);
+    ok = (len >= 0);
+    objs.reserve(ok ? len : 0);
+    for (Py_ssize_t i = 0; ok && i < len; ++i)
     {
       //// this is a new reference
       PyObject *lobj = PySequence_GetItem(obj, i);
       //Py_INCREF(lobj);
-      objs[i] = ObjectHolder(lobj);
+      if (lobj)
+      {
+        objs.emplace_back(static_cast<void *>(lobj));
+      }
+      else
+      {
+        ok = false;
+      }
+    }
+    if (!ok)
+    {
+      objs.clear();
+      PyErr_Clear();
     }
   }
 
-- 
2.43.0


From c303bba374b7ece9ab4d94bf81727b9697799025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 049/112] fix: the bits of numpy arrays of integers were read
 as floating point values

---
 src/pythonapi/ObjectHolder.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 12d5bd9..93eb208 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -460,6 +460,22 @@ void GetArrayInfo(const ObjectHolder &input, std::string &typecode, long &itemsi
         ObjectHolder obj_typecode(PyObject_GetAttrString(obj, "typecode"));
         typecode = obj_typecode.GetString();
       }
+      else if (PyObject_HasAttrString(obj, "dtype"))
+      {
+        // the type of a numpy array, its bytes are not usable when they are swapped
+        ObjectHolder obj_dtype(PyObject_GetAttrString(obj, "dtype"));
+        if (PyObject *dtype = reinterpret_cast<PyObject *>(obj_dtype.GetObject()); dtype && PyObject_HasAttrString(dtype, "char") && PyObject_HasAttrString(dtype, "isnative"))
+        {
+          ObjectHolder obj_char(PyObject_GetAttrString(dtype, "char"));
+          ObjectHolder obj_native(PyObject_GetAttrString(dtype, "isnative"));
+          typecode = obj_native.GetBoolean().second ? obj_char.GetString() : "swapped";
+        }
+      }
+      else if (PyObject_HasAttrString(obj, "format"))
+      {
+        ObjectHolder obj_format(PyObject_GetAttrString(obj, "format"));
+        typecode = obj_format.GetString();
+      }
 
       if (PyObject_HasAttrString(obj, "itemsize"))
       {
-- 
2.43.0


From 03e37e9da547a82d0447ff830b1f0d0780a46f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 050/112] fix: the math libraries were listed once more after
 each reset

---
 src/math/BlasHeaders.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/BlasHeaders.cc b/src/math/BlasHeaders.cc
index d76d503..2ed90be 100644
--- a/src/math/BlasHeaders.cc
+++ b/src/math/BlasHeaders.cc
@@ -203,6 +203,7 @@ void clear_table()
   {
     *entry.function_pointer = nullptr;
   }
+  blas_table::dll_handles.clear();
 }
 }
 
-- 
2.43.0


From 6dddbc1bbcc62cc695d2a087892919ec858ed970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 051/112] fix: setting the material of a contact read the
 contact of models without one

---
 src/Geometry/Contact.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/Contact.cc b/src/Geometry/Contact.cc
index 4ef28b0..13ff9fc 100644
--- a/src/Geometry/Contact.cc
+++ b/src/Geometry/Contact.cc
@@ -61,7 +61,7 @@ void Contact::SetMaterial(const std::string &new_material)
   const Region::NodeModelList_t &nml = GetRegion()->GetNodeModelList();
   for (Region::NodeModelList_t::const_iterator it = nml.begin(); it != nml.end(); ++it)
   {
-    if (&(it->second->GetContact()) == this)
+    if (it->second->AtContact() && (&(it->second->GetContact()) == this))
     {
       it->second->MarkOld();
     }
@@ -69,7 +69,7 @@ void Contact::SetMaterial(const std::string &new_material)
   const Region::EdgeModelList_t &eml = GetRegion()->GetEdgeModelList();
   for (Region::EdgeModelList_t::const_iterator it = eml.begin(); it != eml.end(); ++it)
   {
-    if (&(it->second->GetContact()) == this)
+    if (it->second->AtContact() && (&(it->second->GetContact()) == this))
     {
       it->second->MarkOld();
     }
-- 
2.43.0


From e59e0f53561df34765ca6747ca039205915d1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 052/112] fix: the iterative solver read the block of circuit
 equations, which have none

---
 src/math/BlockPreconditioner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/BlockPreconditioner.cc b/src/math/BlockPreconditioner.cc
index f308227..575f455 100644
--- a/src/math/BlockPreconditioner.cc
+++ b/src/math/BlockPreconditioner.cc
@@ -167,8 +167,8 @@ void BlockPreconditioner<DoubleType>::ProcessBlockInfo(const IntVec_t &Cols, con
       }
       else
       {
-        const BlockInfo &binfo = blockInfoList_[rbindex];
-        if (!((c >= binfo.min_range_) && (c <= binfo.max_range_)))
+        //// rows of circuit equations are not part of any region
+        if ((rbindex == size_t(-1)) || !((c >= blockInfoList_[rbindex].min_range_) && (c <= blockInfoList_[rbindex].max_range_)))
         {
           //// These entries must always be added since tie interfaces, contacts
           block_matrix_->AddEntry(r, c, v);
-- 
2.43.0


From b6471e7e13cbbe60e26795d738a2575239e9b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 053/112] fix: an error of the PARDISO solve phase was taken
 for a solution

---
 src/math/MKLPardisoPreconditioner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index 285cb91..1f95e68 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -10,6 +10,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "CompressedMatrix.hh"
 #include "dsAssert.hh"
 #include "OutputStream.hh"
+#include <string>
 #include <utility>
 #include <complex>
 #include <vector>
@@ -296,6 +297,9 @@ void MKLPardisoData::LUSolveImpl(void *x, const void *b_input)
 
   PARDISO (pt, &maxfct, &mnum, &mtype, &phase,
            &n, a, ia, ja, &idum, &nrhs, &iparm[0], &msglvl, b, x, &error);
+
+  //// the result is undefined after an error
+  dsAssert(error == 0, "PARDISO error " + std::to_string(error) + " during solve");
 }
 
 template <>
-- 
2.43.0


From eb36666e1f361dae0cd391fb90e05118ce204be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 054/112] fix: exponents close to an integer were cut to it in
 extended precision

---
 src/MathEval/MathWrapper.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MathEval/MathWrapper.cc b/src/MathEval/MathWrapper.cc
index be4da47..76254a0 100644
--- a/src/MathEval/MathWrapper.cc
+++ b/src/MathEval/MathWrapper.cc
@@ -196,10 +196,9 @@ namespace
 template <typename DoubleType>
 inline bool IsInt(DoubleType x)
 {
-  double y;
-  return ((modf(static_cast<double>(x), &y) == 0) &&
-          (x >= std::numeric_limits<int>::min()) &&
-          (x <= std::numeric_limits<int>::max())
+  return ((x >= std::numeric_limits<int>::min()) &&
+          (x <= std::numeric_limits<int>::max()) &&
+          (x == static_cast<int>(x))
          );
 }
 }
-- 
2.43.0


From 405d267b1662c2f06400cc20a461b77d97d79cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 055/112] fix: extended values close to one or zero were taken
 for it in assembly

---
 src/models/ModelDataHolder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index fc775fd..0381fd6 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -101,13 +101,21 @@ void ModelDataHolder::clear() const
 
 bool ModelDataHolder::IsZero() const
 {
+#ifdef DEVSIM_EXTENDED_PRECISION
+  bool ret = is_uniform && (float128_uniform_value == 0.0);
+#else
   bool ret = is_uniform && (double_uniform_value == 0.0);
+#endif
   return ret;
 }
 
 bool ModelDataHolder::IsOne() const
 {
+#ifdef DEVSIM_EXTENDED_PRECISION
+  bool ret = is_uniform && (float128_uniform_value == 1.0);
+#else
   bool ret = is_uniform && (double_uniform_value == 1.0);
+#endif
   return ret;
 }
 
-- 
2.43.0


From d2b252bf782a4471a2ca6a4a5ad48c7c0d61902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 056/112] fix: products with the transpose of a sparse matrix
 took its indexes for its pointers

---
 src/math/CompressedMatrix.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/CompressedMatrix.cc b/src/math/CompressedMatrix.cc
index fffc1aa..0a4a624 100644
--- a/src/math/CompressedMatrix.cc
+++ b/src/math/CompressedMatrix.cc
@@ -567,11 +567,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const DoubleVec_t<DoubleTyp
   const DoubleVec_t<DoubleType> &Vals = this->GetReal();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 
@@ -603,11 +603,11 @@ void CompressedMatrix<DoubleType>::TransposeMultiply(const ComplexDoubleVec_t<Do
   const ComplexDoubleVec_t<DoubleType> &Vals = this->GetComplex();
   if (compressionType_ == CompressionType::CCM)
   {
-    RowScaleMultiply(Rows, Cols, Vals, x, y);
+    RowScaleMultiply(Cols, Rows, Vals, x, y);
   }
   else if (compressionType_ == CompressionType::CRM)
   {
-    ColScaleMultiply(Cols, Rows, Vals, x, y);
+    ColScaleMultiply(Rows, Cols, Vals, x, y);
   }
 }
 }
-- 
2.43.0


From 26a9b244b903eb2397074ab081521de325b31eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:35 +0000
Subject: [PATCH 057/112] fix: the iterative solver asked for residuals below
 rounding and gave values that are not finite

---
 src/math/IterativeLinearSolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/IterativeLinearSolver.cc b/src/math/IterativeLinearSolver.cc
index 223a538..7aa8d47 100644
--- a/src/math/IterativeLinearSolver.cc
+++ b/src/math/IterativeLinearSolver.cc
@@ -21,7 +21,7 @@ SPDX-License-Identifier: Apache-2.0
 //#include <iostream>
 namespace dsMath {
 template <typename DoubleType>
-IterativeLinearSolver<DoubleType>::IterativeLinearSolver() : restart_(50), linear_iterations_(100), relative_tolerance_(1e-20)
+IterativeLinearSolver<DoubleType>::IterativeLinearSolver() : restart_(50), linear_iterations_(100), relative_tolerance_(1e-14)
 {}
 
 template <>
-- 
2.43.0


From 6d42532ffb50344caf006cf463d548ed2816c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:07 +0000
Subject: [PATCH 058/112] fix: devices were saved with too few digits to read
 the same values again

---
 src/meshing/DevsimRestartWriter.cc | 4 +++-
 src/meshing/DevsimWriter.cc        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 69bd1ee..04ee982 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -28,6 +28,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 
 namespace {
 void WriteCoordinates(std::ostream &myfile, const Device::CoordinateList_t &clist)
@@ -179,7 +180,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
   std::ios oldState(nullptr);
   oldState.copyfmt(myfile);
 
-  myfile << std::setprecision(15) << std::scientific;
+  //// all digits needed to read the same value again
+  myfile << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << std::scientific;
   GlobalData   &gdata = GlobalData::GetInstance();
 
   DevicePtr dp = gdata.GetDevice(dname);
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 5e1f65a..5c11164 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -22,6 +22,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <fstream>
 #include "dsAssert.hh"
 #include <iomanip>
+#include <limits>
 
 namespace {
 void WriteCoordinates(std::ostream &myfile, const Device::CoordinateList_t &clist)
@@ -132,7 +133,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
     std::ios oldState(nullptr);
     oldState.copyfmt(myfile);
 
-    myfile << std::setprecision(15) << std::scientific;
+    //// all digits needed to read the same value again
+    myfile << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << std::scientific;
     GlobalData   &gdata = GlobalData::GetInstance();
 
     DevicePtr dp = gdata.GetDevice(dname);
-- 
2.43.0


From 496215ab430705a12b30381d5f2c0d066567df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 059/112] fix: a tetrahedron derivative of an edge model was
 saved as the command of another model

---
 src/models/TetrahedronEdgeFromEdgeModelDerivative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
index 2cd56ed..48c6d34 100644
--- a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
@@ -147,7 +147,7 @@ void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::calcTetrahedronEdgeScal
 template <typename DoubleType>
 void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_pair_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
+  of << "COMMAND element_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
 }
 
 template class TetrahedronEdgeFromEdgeModelDerivative<double>;
-- 
2.43.0


From 680955bf62589ab4d38e61d24e0f2817b9d910a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 060/112] fix: errors of commands and of values while loading a
 device were forgotten, and interface nodes not paired by coordinate

---
 src/meshing/DevsimLoader.cc | 50 ++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 66e229f..fa5f3f1 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -363,10 +363,6 @@ void FixNodePairs(MeshInterface &mint, ConstNodeList &cn0, ConstNodeList &cn1)
     {
       (*jt).second.second = (*it)->GetIndex();
     }
-    else
-    {
-      mmap.erase(jt);
-    }
   }
 
   for (std::map<size_t, std::pair<size_t, size_t> >::iterator it = mmap.begin(); it != mmap.end(); ++it)
@@ -572,6 +568,9 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         GetNodes(mint.GetMeshRegion0(), rp0, cn0);
         GetNodes(mint.GetMeshRegion1(), rp1, cn1);
         FixNodePairs(mint, cn0, cn1);
+        mnp = mint.GetNodePairs();
+        cn0.clear();
+        cn1.clear();
       }
 
       if (!mnp.empty())
@@ -825,9 +824,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
 //        os << "Execute: " << sol.GetCommandName() << "\n";
         {
           std::string resultString;
-          ret = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
-          if (!ret)
+          const bool ok = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
+          if (!ok)
           {
+            ret = false;
             errorString += "While executing: " + sol.GetCommandName() + "\n" + resultString + "\n";
             OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
           }
@@ -843,9 +843,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const Equation &equation   = *(eit->second);
       {
         std::string resultString;
-        ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
-        if (!ret)
+        const bool ok = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
+        if (!ok)
         {
+          ret = false;
           errorString += "While executing: " + equation.GetCommandName() + "\n" + resultString + "\n";
           OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
         }
@@ -871,6 +872,7 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       dsHelper::ret_pair rval = dsHelper::CreateInterfaceNodeExprModel(sname, "0;", ip);
       if (!rval.first)
       {
+        ret = false;
         std::ostringstream os;
         //// TODO: do command here!
         os << "Unable to create interface model: " << sname << "\n";
@@ -906,9 +908,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
 
         {
           std::string resultString;
-          ret = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
-          if (!ret)
+          const bool ok = RunCommand(sol.GetCommandName(), sol.GetCommandArgs(), resultString);
+          if (!ok)
           {
+            ret = false;
             errorString += "While executing: " + sol.GetCommandName() + "\n" + resultString + "\n";
             OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
           }
@@ -922,9 +925,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const Equation &equation   = *(eit->second);
       {
         std::string resultString;
-        ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
-        if (!ret)
+        const bool ok = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
+        if (!ok)
         {
+          ret = false;
           errorString += "While executing: " + equation.GetCommandName() + "\n" + resultString + "\n";
           OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
         }
@@ -941,9 +945,10 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const Equation &equation   = *(eit->second);
       {
         std::string resultString;
-        ret = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
-        if (!ret)
+        const bool ok = RunCommand(equation.GetCommandName(), equation.GetCommandArgs(), resultString);
+        if (!ok)
         {
+          ret = false;
           errorString += "While executing: " + equation.GetCommandName() + "\n" + resultString + "\n";
           OutputStream::WriteOut(OutputStream::OutputType::FATAL, errorString);
         }
@@ -1116,6 +1121,23 @@ bool DevsimLoader::Finalize_(std::string &errorString)
         }
       }
 
+      if (region.HasTetrahedra())
+      {
+        for (const auto &t : region.GetTetrahedra())
+        {
+          for (size_t index : {t.Index0(), t.Index1(), t.Index2(), t.Index3()})
+          {
+            if (index >= nnodes)
+            {
+              ret = false;
+              std::ostringstream os;
+              os << "Node index " << index << " in region " << rname << " for tetrahedra exceeds the max node index, " << (nnodes - 1) << "\n";
+              OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+            }
+          }
+        }
+      }
+
       if (region.HasTriangles())
       {
         const MeshTriangleList_t &nl = region.GetTriangles();
-- 
2.43.0


From 1dc0b2f92fac25c326a5a3bec619be206ea1a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 061/112] fix: a load which failed left its parser state, mesh
 and device for the next one

---
 src/meshing/DevsimParser.y  | 22 +++++++++++----
 src/meshing/DevsimScanner.l | 53 ++++++++++++++++++++++++++++++++++---
 src/meshing/Mesh.cc         | 21 ++++++++++++++-
 3 files changed, 86 insertions(+), 10 deletions(-)

diff --git a/src/meshing/DevsimParser.y b/src/meshing/DevsimParser.y
index 1821327..673fa5d 100644
--- a/src/meshing/DevsimParser.y
+++ b/src/meshing/DevsimParser.y
@@ -89,7 +89,6 @@ end_devicecmd : END_DEVICE {
     //// should we finalize and instantiate by default ????
     //// or should this be the last step for the user
     ret = dsDevsimParse::DevsimLoader->Instantiate(dsDevsimParse::DevsimLoader->GetName(), errorString);
-    dsDevsimParse::DevsimLoader = nullptr;
   }
 
   if (!ret)
@@ -98,6 +97,7 @@ end_devicecmd : END_DEVICE {
     YYABORT;
   }
 
+  dsDevsimParse::DevsimLoader = nullptr;
   dsDevsimParse::DeletePointers();
 }
 
@@ -117,7 +117,7 @@ number : FLOAT {
         } |
         INT
         {
-            $$ = $1;
+            $$ = $<dval>1;
         }
         ;
 
@@ -145,7 +145,7 @@ region : BEG_REGION WORD WORD  {
             if (!dsDevsimParse::MeshRegion)
             {
                 std::ostringstream os;
-                os << "ERROR: No region to end " << dsDevsimParse::MeshRegion->GetName() << "\n";
+                os << "ERROR: No region to end\n";
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
@@ -525,7 +525,7 @@ contact : BEG_CONTACT WORD WORD WORD  {
             if (!dsDevsimParse::MeshContact)
             {
                 std::ostringstream os;
-                os << "ERROR: No contact to end " << dsDevsimParse::MeshContact->GetName() << "\n";
+                os << "ERROR: No contact to end\n";
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
@@ -564,7 +564,7 @@ interface : BEG_INTERFACE WORD WORD WORD  {
             if (!dsDevsimParse::MeshInterface)
             {
                 std::ostringstream os;
-                os << "ERROR: No interface to end " << dsDevsimParse::MeshContact->GetName() << "\n";
+                os << "ERROR: No interface to end\n";
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
@@ -605,6 +605,11 @@ nodesol : BEG_NODESOL WORD  {
             }
         } |
         nodesol number  {
+            if (!dsDevsimParse::Sol)
+            {
+                Devsimerror("ERROR: No solution for value");
+                YYABORT;
+            }
             dsDevsimParse::Sol->AddValue($2);
         } |
         nodesol END_NODESOL  {
@@ -915,12 +920,14 @@ edgesol : BEG_EDGESOL WORD  {
                 std::ostringstream os;
                 os << "ERROR: Solution is currently being loaded " << dsDevsimParse::Sol->GetName() << "\n";
                 Devsimerror(os.str().c_str());
+                YYABORT;
             }
             else if (dsDevsimParse::MeshRegion->IsSolution($2))
             {
                 std::ostringstream os;
                 os << "ERROR: Solution already loaded " << $2 << "\n";
                 Devsimerror(os.str().c_str());
+                YYABORT;
             }
             else
             {
@@ -931,6 +938,11 @@ edgesol : BEG_EDGESOL WORD  {
             }
         } |
         edgesol number  {
+            if (!dsDevsimParse::Sol)
+            {
+                Devsimerror("ERROR: No solution for value");
+                YYABORT;
+            }
             dsDevsimParse::Sol->AddValue($2);
         } |
         edgesol END_EDGESOL  {
diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 004ac56..c74caf3 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -8,7 +8,11 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "Devsimyystype.hh"
 #include "DevsimReader.hh"
+#include "DevsimLoader.hh"
+#include "MeshKeeper.hh"
 #include "DevsimParser.hh"
+#include <cmath>
+#include <limits>
 #include <sstream>
 #define YY_NO_UNPUT
 #ifdef _WIN32
@@ -53,7 +57,15 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <*>{float1}|{float2}|{float3}    {Devsimlval.dval = atof(yytext); return FLOAT;}
 
-<*>{integer}   {Devsimlval.dval = atof(yytext); Devsimlval.ival = atof(yytext); return INT;}
+<*>{integer}   {
+                Devsimlval.dval = atof(yytext);
+                if (std::abs(Devsimlval.dval) > std::numeric_limits<int>::max())
+                {
+                  return FLOAT;
+                }
+                Devsimlval.ival = static_cast<int>(Devsimlval.dval);
+                return INT;
+            }
 
 <INITIAL>^begin_device {
                 yy_push_state(DEVICE_SEC);
@@ -307,10 +319,39 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
               return WORD;
            }
 
-<*>.   {return yytext[0];}
+<*>.   {
+          //// anything not positive is taken for the end of the file
+          const int c = static_cast<unsigned char>(yytext[0]);
+          return c ? c : 1;
+       }
 %%
 
 int Devsimparse();
+int Devsimerror(const char *);
+
+namespace {
+//// Nothing of an unfinished load is kept for the next one
+struct ParseCleanup {
+  ~ParseCleanup()
+  {
+    if (dsDevsimParse::DevsimLoader)
+    {
+      const std::string name = dsDevsimParse::DevsimLoader->GetName();
+      dsDevsimParse::DevsimLoader = nullptr;
+      dsMesh::MeshKeeper::GetInstance().DeleteMesh(name);
+    }
+    dsDevsimParse::DeletePointers();
+    while (yy_start_stack_ptr > 0)
+    {
+      yy_pop_state();
+    }
+    BEGIN(INITIAL);
+    yy_delete_buffer( YY_CURRENT_BUFFER );
+    fclose(Devsimin);
+    Devsimin = nullptr;
+  }
+};
+}
 
 namespace dsDevsimParse {
 bool LoadMeshes(const std::string &fname, std::string &errorString)
@@ -332,14 +373,18 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     else
     {
         Devsim_switch_to_buffer(Devsim_create_buffer( Devsimin, YY_BUF_SIZE ) );
+        ParseCleanup cleanup;
         retval = Devsimparse();
-        yy_delete_buffer( YY_CURRENT_BUFFER );
+        if (!retval && dsDevsimParse::DevsimLoader)
+        {
+          Devsimerror("ERROR: unexpected end of file");
+          retval = 1;
+        }
     }
 
 
     ret = !retval;
 
-    dsDevsimParse::DeletePointers();
     errorString += dsDevsimParse::errors;
     return ret;
 }
diff --git a/src/meshing/Mesh.cc b/src/meshing/Mesh.cc
index 7ab7b68..0c532ee 100644
--- a/src/meshing/Mesh.cc
+++ b/src/meshing/Mesh.cc
@@ -6,6 +6,7 @@ SPDX-License-Identifier: Apache-2.0
 ***/
 
 #include "Mesh.hh"
+#include "GlobalData.hh"
 #include <sstream>
 namespace dsMesh {
 Mesh::Mesh(const std::string &n) : name(n), finalized(false)
@@ -43,7 +44,25 @@ bool Mesh::Instantiate(const std::string &name, std::string &errorString)
         return ret;
     }
 
-    ret = this->Instantiate_(name, errorString);
+    //// A device which could not be completed is not kept
+    GlobalData &gdata = GlobalData::GetInstance();
+    const bool existed = (gdata.GetDevice(name) != nullptr);
+    try
+    {
+        ret = this->Instantiate_(name, errorString);
+    }
+    catch (...)
+    {
+        if (!existed)
+        {
+            gdata.DeleteDevice(name);
+        }
+        throw;
+    }
+    if (!ret && !existed)
+    {
+        gdata.DeleteDevice(name);
+    }
     return ret;
 }
 
-- 
2.43.0


From 245711c7690fbbd7a2565c45f185929048f0c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 062/112] fix: devices which could not be written were reported
 as written

---
 src/meshing/DevsimRestartWriter.cc | 20 +++++++++++++++++---
 src/meshing/DevsimWriter.cc        | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 04ee982..4fe331a 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -407,7 +407,7 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -415,6 +415,13 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
     else
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
+
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -427,10 +434,12 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
+        errorString += os.str();
+        return ret;
     }
 
     GlobalData   &gdata = GlobalData::GetInstance();
@@ -438,10 +447,15 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
     for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
     {
         const std::string &dname = dit->first;
-        ret = WriteSingleDevice(dname, myfile, errorString);
+        ret = WriteSingleDevice(dname, myfile, errorString) && ret;
     }
 
     myfile.close();
+    if (!myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 5c11164..a47682f 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -246,7 +246,7 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -254,6 +254,13 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
     else
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
+
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -266,10 +273,12 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
+        errorString += os.str();
+        return ret;
     }
 
     GlobalData   &gdata = GlobalData::GetInstance();
@@ -277,10 +286,15 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
     for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
     {
         const std::string &dname = dit->first;
-        ret = WriteSingleDevice(dname, myfile, errorString);
+        ret = WriteSingleDevice(dname, myfile, errorString) && ret;
     }
 
     myfile.close();
+    if (!myfile)
+    {
+        ret = false;
+        os << "Could not write \"" << filename << "\"\n";
+    }
 
     errorString += os.str();
     return ret;
-- 
2.43.0


From 9b6a6437ab36ad32be93d2e11319d4322415475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 063/112] fix: contacts made from nodes only were saved without
 them

---
 src/meshing/DevsimRestartWriter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 4fe331a..58d751f 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -264,7 +264,10 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
 
       const ConstNodeList_t &ctnodes = cnt.GetNodes();
 
-      if (dimension == 1)
+      //// contacts may be made from nodes only
+      const bool no_elements = ((dimension == 2) && cnt.GetEdges().empty()) || ((dimension == 3) && cnt.GetTriangles().empty());
+
+      if ((dimension == 1) || no_elements)
       {
         myfile << "begin_nodes\n";
         for (ConstNodeList_t::const_iterator ctit = ctnodes.begin(); ctit != ctnodes.end(); ++ctit)
-- 
2.43.0


From 18e9a37e8271ab9b596a31d16004fb2d53924777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 064/112] fix: VTK and Tecplot files which could not be written
 were reported as written

---
 src/meshing/TecplotWriter.cc | 18 ++++++++++++++++--
 src/meshing/VTKWriter.cc     | 17 ++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index ba61f36..9dd99f6 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -797,7 +797,7 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -805,6 +805,13 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
     else
     {
         ret = Tecplot::WriteSingleDevice(deviceName, myfile, include_test, errorString);
+
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write " << filename << "\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -817,10 +824,12 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
+        errorString += os.str();
+        return ret;
     }
 
     GlobalData   &gdata = GlobalData::GetInstance();
@@ -840,6 +849,11 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
         }
     }
     myfile.close();
+    if (!myfile)
+    {
+        ret = false;
+        os << "Could not write " << filename << "\n";
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 1c7f35a..6384299 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -474,12 +474,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     std::ofstream visitfile;
     vtmfile.open (vtmfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
     visitfile.open (visitfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (vtmfile.bad())
+    if (!vtmfile)
     {
       ret = false;
       os << "Could not open " << vtmfilename << " for writing\n";
     }
-    else if (visitfile.bad())
+    else if (!visitfile)
     {
       ret = false;
       os << "Could not open " << visitfilename << " for writing\n";
@@ -503,7 +503,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
         std::ofstream vtufile;
         vtufile.open (vtufilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-        if (vtufile.bad())
+        if (!vtufile)
         {
             ret = false;
             os << "Could not open " << vtufilename << " for writing\n";
@@ -521,6 +521,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
           vtufile << "\n";
           vtufile.close();
+          if (!vtufile)
+          {
+            ret = false;
+            os << "Could not write " << vtufilename << "\n";
+            break;
+          }
           vtufiles.push_back(vtufilename);
         }
         ++i;
@@ -549,6 +555,11 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     }
     vtmfile.close();
     visitfile.close();
+    if (ret && !(vtmfile && visitfile))
+    {
+      ret = false;
+      os << "Could not write " << vtmfilename << " and " << visitfilename << "\n";
+    }
   }
   errorString += os.str();
   return ret;
-- 
2.43.0


From e0cf392d32961d6a27beb3eff015576a72f62134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 065/112] fix: loading what cannot be read as a file ended the
 process

---
 src/meshing/DevsimScanner.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index c74caf3..2f94df1 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -14,7 +14,10 @@ SPDX-License-Identifier: Apache-2.0
 #include <cmath>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #define YY_NO_UNPUT
+//// the default ends the process
+#define YY_FATAL_ERROR(msg) throw std::runtime_error(msg)
 #ifdef _WIN32
 #include <io.h>
 #define YY_NO_UNISTD_H
-- 
2.43.0


From 0b0dfe6d9dce8b464524b86b48485777b849248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:45 +0000
Subject: [PATCH 066/112] fix: text which is not UTF-8, and output which fails,
 left an error of the interpreter behind

---
 src/pythonapi/ObjectHolder.cc   |  5 +++--
 src/pythonapi/OutputStream.cc   | 23 +++++++++++++++++++++--
 src/pythonapi/PythonCommands.cc |  3 ++-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 93eb208..c751ee1 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -690,14 +690,15 @@ ObjectHolder::ObjectHolder(const std::string &s)
 {
   EnsurePythonGIL gil;
 
-  object_ = PyUnicode_FromStringAndSize(s.c_str(), s.size());
+  //// text which is not UTF-8 is replaced, in place of having no object
+  object_ = PyUnicode_DecodeUTF8(s.c_str(), s.size(), "replace");
 }
 
 ObjectHolder::ObjectHolder(const char *s)
 {
   EnsurePythonGIL gil;
 
-  object_ = PyUnicode_FromStringAndSize(s, strlen(s));
+  object_ = PyUnicode_DecodeUTF8(s, strlen(s), "replace");
 }
 
 ObjectHolder::ObjectHolder(const void *s, size_t len)
diff --git a/src/pythonapi/OutputStream.cc b/src/pythonapi/OutputStream.cc
index 437922f..eafcfa2 100644
--- a/src/pythonapi/OutputStream.cc
+++ b/src/pythonapi/OutputStream.cc
@@ -38,8 +38,27 @@ void OutputStream::WriteOut(OutputType ot, Verbosity_t verbosity, const std::str
       std::cerr << "Could not find output channel!";
       Py_Exit(-1);
     }
-    PyFile_WriteString(m.c_str(), tc);
-    PyObject_CallMethod(tc, "flush", "");
+    //// output is not a reason for a command to fail
+    auto clear_error = []()->void {
+      if (PyErr_ExceptionMatches(PyExc_Exception))
+      {
+        PyErr_Clear();
+      }
+    };
+
+    ObjectHolder text(m);
+    if (PyFile_WriteObject(reinterpret_cast<PyObject *>(text.GetObject()), tc, Py_PRINT_RAW) == 0)
+    {
+      ObjectHolder result(PyObject_CallMethod(tc, "flush", ""));
+      if (!result.GetObject())
+      {
+        clear_error();
+      }
+    }
+    else
+    {
+      clear_error();
+    }
   };
 
   if (ot == OutputType::INFO)
diff --git a/src/pythonapi/PythonCommands.cc b/src/pythonapi/PythonCommands.cc
index 82fa87c..dcd38f2 100644
--- a/src/pythonapi/PythonCommands.cc
+++ b/src/pythonapi/PythonCommands.cc
@@ -160,7 +160,8 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
 
   if (!ret)
   {
-    PyErr_SetString(GETSTATE(m)->error, errorString.c_str());
+    ObjectHolder message(errorString);
+    PyErr_SetObject(GETSTATE(m)->error, reinterpret_cast<PyObject *>(message.GetObject()));
   }
 
   return ret;
-- 
2.43.0


From 31fab2e0b4b5fd81939d1c96fdfeeb044b138cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:32 +0000
Subject: [PATCH 067/112] fix: a device whose geometry raised floating point
 exceptions was kept after its command failed

---
 src/meshing/Mesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meshing/Mesh.cc b/src/meshing/Mesh.cc
index 0c532ee..51d4924 100644
--- a/src/meshing/Mesh.cc
+++ b/src/meshing/Mesh.cc
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "Mesh.hh"
 #include "GlobalData.hh"
+#include "FPECheck.hh"
 #include <sstream>
 namespace dsMesh {
 Mesh::Mesh(const std::string &n) : name(n), finalized(false)
@@ -59,6 +60,10 @@ bool Mesh::Instantiate(const std::string &name, std::string &errorString)
         }
         throw;
     }
+    if (FPECheck::CheckFPE())
+    {
+        ret = false;
+    }
     if (!ret && !existed)
     {
         gdata.DeleteDevice(name);
-- 
2.43.0


From 32612bd29519f17885f854e766aac9572979347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 068/112] fix: an element without area left half of the element
 field behind, used by the next command

---
 src/Geometry/TetrahedronElementField.cc | 9 ++++++---
 src/Geometry/TriangleElementField.cc    | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/TetrahedronElementField.cc b/src/Geometry/TetrahedronElementField.cc
index 4ef5122..6c57e95 100644
--- a/src/Geometry/TetrahedronElementField.cc
+++ b/src/Geometry/TetrahedronElementField.cc
@@ -92,7 +92,8 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
   const Region::TetrahedronToConstEdgeDataList_t &ttelist = myregion_->GetTetrahedronToEdgeDataList();
 
   ///// Need to handle 01, 02, 12 combinations
-  dense_mats_.resize(tetrahedronList.size());
+  //// kept when complete, since there may be elements without area or volume
+  decltype(dense_mats_) dense_mats(tetrahedronList.size());
 
   for (size_t tindex = 0; tindex < tetrahedronList.size(); ++tindex)
   {
@@ -131,6 +132,7 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
       dsAssert(k == 3, "UNEXPECTED");
 
       dsMath::RealDenseMatrix<DoubleType> *dmp = new dsMath::RealDenseMatrix<DoubleType>(3);
+      dense_mats[tindex].mats[i] = dmp;
       dsMath::RealDenseMatrix<DoubleType> &M = *dmp;
 
       for (size_t l = 0; l < 3; ++l)
@@ -142,13 +144,14 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
 
       bool info = M.LUFactor();
       dsAssert(info, "UNEXPECTED");
-      dense_mats_[tindex].mats[i] = dmp;
       for (size_t m = 0; m < 3; ++m)
       {
-        dense_mats_[tindex].edgeIndexes[i][m] = edgeIndexes[m];
+        dense_mats[tindex].edgeIndexes[i][m] = edgeIndexes[m];
       }
     }
   }
+
+  dense_mats_.swap(dense_mats);
 }
 
 template <typename DoubleType>
diff --git a/src/Geometry/TriangleElementField.cc b/src/Geometry/TriangleElementField.cc
index 535991a..a4af598 100644
--- a/src/Geometry/TriangleElementField.cc
+++ b/src/Geometry/TriangleElementField.cc
@@ -91,7 +91,8 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
   const Region::TriangleToConstEdgeList_t &ttelist = myregion_->GetTriangleToEdgeList();
 
   ///// Need to handle 01, 02, 12 combinations
-  dense_mats_.resize(ttelist.size());
+  //// kept when complete, since there may be elements without area or volume
+  decltype(dense_mats_) dense_mats(ttelist.size());
 
   for (size_t tindex = 0; tindex < ttelist.size(); ++tindex)
   {
@@ -111,6 +112,7 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
     for (size_t i = 0; i < 3; ++i)
     {
       dsMath::RealDenseMatrix<DoubleType> *dmp = new dsMath::RealDenseMatrix<DoubleType>(2);
+      dense_mats[tindex].mats[i] = dmp;
       dsMath::RealDenseMatrix<DoubleType> &M = *dmp;
 
       const size_t r0 = row0_[i];
@@ -124,9 +126,10 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
       bool info = M.LUFactor();
       dsAssert(info, "UNEXPECTED");
 
-      dense_mats_[tindex].mats[i] = dmp;
     }
   }
+
+  dense_mats_.swap(dense_mats);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From 82569075baa19bfc6e32eff7acd36525e196aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 069/112] fix: a region with elements without all their edges
 or triangles was used through null pointers

---
 src/Geometry/Region.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 948340a..68407ea 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -538,6 +538,14 @@ void Region::CreateTriangleToEdgeList()
       }
     }
   }
+
+  for (size_t i = 0; i < triangleToEdgeList.size(); ++i)
+  {
+    for (size_t j = 0; j < 3; ++j)
+    {
+      dsAssert(triangleToEdgeList[i][j] != nullptr, "triangle has an edge which is not in its region");
+    }
+  }
 }
 
 //// Ripoff of CreateTriangleToEdgeList
@@ -605,6 +613,11 @@ void Region::CreateTetrahedronToEdgeDataList()
 #endif
     }
   }
+
+  for (size_t i = 0; i < tetrahedronToEdgeDataList.size(); ++i)
+  {
+    dsAssert(tetrahedronToEdgeDataList[i].size() == 6, "tetrahedron has an edge which is not in its region");
+  }
 }
 
 /// Requires Node, edge, triangle, and tetrahedron indices to be set
@@ -685,6 +698,14 @@ void Region::CreateTetrahedronToTriangleList()
       }
     }
   }
+
+  for (size_t i = 0; i < tetrahedronToTriangleList.size(); ++i)
+  {
+    for (size_t j = 0; j < 4; ++j)
+    {
+      dsAssert(tetrahedronToTriangleList[i][j] != nullptr, "tetrahedron has a triangle which is not in its region");
+    }
+  }
 }
 
 void Region::SetTriangleCenters()
-- 
2.43.0


From c51a923ee9e870b0c1379800779e33ae456fadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 070/112] fix: a model on an interface without nodes referred
 to elements of empty vectors

---
 src/models/ParallelOpEqual.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/ParallelOpEqual.hh b/src/models/ParallelOpEqual.hh
index 2c73ad4..947f4fa 100644
--- a/src/models/ParallelOpEqual.hh
+++ b/src/models/ParallelOpEqual.hh
@@ -20,8 +20,8 @@ struct SerialVectorVectorOpEqual {
 
   void operator()(const size_t b, const size_t e)
   {
-    DoubleType *v0 = &vec0_[b];
-    const DoubleType *v1 = &vec1_[b];
+    DoubleType *v0 = vec0_.data() + b;
+    const DoubleType *v1 = vec1_.data() + b;
     for (size_t i = b; i < e; ++i)
     {
       op_(*(v0++), *(v1++));
@@ -40,7 +40,7 @@ struct SerialVectorScalarOpEqual {
 
   void operator()(const size_t b, const size_t e)
   {
-    DoubleType *v0 = &vec0_[b];
+    DoubleType *v0 = vec0_.data() + b;
     for (size_t i = b; i < e; ++i)
     {
       op_(*(v0++), scalar_);
-- 
2.43.0


From 700010060f8d649445e1242a3867fdea145f0c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 071/112] fix: the last block of VTK data was written empty
 when it was full

---
 src/utility/base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/base64.cc b/src/utility/base64.cc
index 6fd1e43..296ff09 100644
--- a/src/utility/base64.cc
+++ b/src/utility/base64.cc
@@ -98,7 +98,7 @@ template <typename T> std::string convertVectorToZlibBase64(const std::vector<T>
   for (size_t i = 0; i < numberOfBlocks; ++i)
   {
     size_t inputLength = maxLength;
-    if (i == (numberOfBlocks - 1))
+    if ((i == (numberOfBlocks - 1)) && (numberTInPartialBlock != 0))
     {
       inputLength = sizeof(T) * numberTInPartialBlock;
     }
-- 
2.43.0


From 71e8a8fc5274ab213cca79810bb4cfb2139e9f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 072/112] fix: include_test was not used for vectors and data
 of tetrahedra in VTK files

---
 src/meshing/VTKWriter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 6384299..d3239b7 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -158,6 +158,11 @@ void WritePointData(const Region &reg, MeshWriterTest_t include_test, std::ostre
       const std::string &nm = it->first;
       const EdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+        continue;
+      }
+
       if (em.GetDisplayType() == EdgeModel::DisplayType::VECTOR)
       {
         const NodeVectorList<double> &nvl = em.GetVectorValuesOnNodes<double>();
@@ -239,6 +244,11 @@ void WriteElementData(const Region &reg, MeshWriterTest_t include_test, std::ost
       const std::string &nm = it->first;
       const TetrahedronEdgeModel &em = *(it->second);
 
+      if (!include_test(nm))
+      {
+          continue;
+      }
+
       std::vector<double> nsl;
       if (em.GetDisplayType() == TetrahedronEdgeModel::DisplayType::SCALAR)
       {
-- 
2.43.0


From 9446ad3d3424b6e82d1f12d24045f99f6ad54bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 073/112] fix: VTK files in another directory were referred to
 by a path which is not relative to it

---
 src/meshing/VTKWriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index d3239b7..dde0d90 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -537,7 +537,8 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
             os << "Could not write " << vtufilename << "\n";
             break;
           }
-          vtufiles.push_back(vtufilename);
+          // files are found relative to the file which refers to them
+          vtufiles.push_back(vtufilename.substr(vtufilename.find_last_of('/') + 1));
         }
         ++i;
       }
-- 
2.43.0


From 424b47134bafc3eda0b2f469c3260970360dfbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 074/112] fix: names with characters special in XML made VTK
 files which are not well formed

---
 src/meshing/VTKWriter.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index dde0d90..22af7b3 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -48,13 +48,39 @@ void WriteFooter(std::ostream &myfile)
   ;
 }
 
+std::string EscapeXML(const std::string &text)
+{
+  std::string ret;
+  for (auto c : text)
+  {
+    switch (c)
+    {
+      case '&':
+        ret += "&amp;";
+        break;
+      case '<':
+        ret += "&lt;";
+        break;
+      case '>':
+        ret += "&gt;";
+        break;
+      case '"':
+        ret += "&quot;";
+        break;
+      default:
+        ret += c;
+    }
+  }
+  return ret;
+}
+
 void WriteDataArray(const std::vector<double> &nsl, const std::string &name, const size_t number_components, std::ostream &myfile)
 {
   myfile << "<DataArray type=\"Float64\"";
 
   if (!name.empty())
   {
-    myfile << " Name=\"" << name << "\"";
+    myfile << " Name=\"" << EscapeXML(name) << "\"";
   }
   if (number_components != 1)
   {
@@ -554,7 +580,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
         for (std::vector<std::string>::iterator it = vtufiles.begin(); it != vtufiles.end(); ++it)
         {
           vtmfile <<
-"    <DataSet group=\"" << i << "\" dataset=\"" << 0 << "\" file=\"" << *it << "\"/>\n";
+"    <DataSet group=\"" << i << "\" dataset=\"" << 0 << "\" file=\"" << EscapeXML(*it) << "\"/>\n";
           ++i;
           visitfile << *it << "\n";
         }
-- 
2.43.0


From bd86c5ca08fc463d2c73f2b082241771650030ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:22 +0000
Subject: [PATCH 075/112] fix: a model displayed as vector in one region and
 scalar in another ended writing Tecplot files

---
 src/meshing/TecplotWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index 9dd99f6..95b4470 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -272,7 +272,7 @@ void WriteEdgeBlockVector(std::ostream &myfile, const Region &reg, const std::st
   /// TODO: make sure it is the same type in each region
   if (emp)
   {
-    dsAssert(emp->GetDisplayType() == EdgeModel::DisplayType::VECTOR, "UNEXPECTED");
+//    dsAssert(emp->GetDisplayType() == EdgeModel::DisplayType::VECTOR, "UNEXPECTED");
 
     const NodeVectorList<double> &values = emp->GetVectorValuesOnNodes<double>();
     dsAssert(values.size() > 0, "UNEXPECTED");
-- 
2.43.0


From 2d7bc0f725a0bef24cd3924d894bbfc9f6003dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:45 +0000
Subject: [PATCH 076/112] fix: models for which include_test failed were left
 out without an error

---
 src/meshing/MeshWriter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meshing/MeshWriter.cc b/src/meshing/MeshWriter.cc
index a456228..e3c0c77 100644
--- a/src/meshing/MeshWriter.cc
+++ b/src/meshing/MeshWriter.cc
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "MeshWriter.hh"
 #include "Interpreter.hh"
+#include "OutputStream.hh"
 
 MeshWriter::~MeshWriter() {}
 
@@ -64,6 +65,10 @@ class MeshWriterTestFunctor {
                 auto x = interp.GetResult().GetBoolean();
                 ret = x.first && x.second;
             }
+            else
+            {
+                OutputStream::WriteOut(OutputStream::OutputType::FATAL, "\"include_test\" failed for \"" + arg + "\"\n" + interp.GetErrorString());
+            }
             return ret;
         }
 
-- 
2.43.0


From 69c877bdfa2841c9b7d72b069dcfa1f9e7be608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 077/112] fix: bytes which are not ASCII ended reading a Gmsh
 file as if it was complete

---
 src/meshing/GmshScanner.l | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index c996e72..4b700f2 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -105,7 +105,11 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 		return WORD;
 	    }
 
-<*>.   {return yytext[0];}
+<*>.   {
+          //// anything not positive is taken for the end of the file
+          const int c = static_cast<unsigned char>(yytext[0]);
+          return c ? c : 1;
+       }
 %%
 
 int Gmshparse();
-- 
2.43.0


From 589000092ca5d2fcaa28f7c0e07eefc3fcbc2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 078/112] fix: integers in a Gmsh file larger than the range of
 int were changed into others

---
 src/meshing/GmshParser.y  |  2 +-
 src/meshing/GmshScanner.l | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/meshing/GmshParser.y b/src/meshing/GmshParser.y
index b4795e6..056cbea 100644
--- a/src/meshing/GmshParser.y
+++ b/src/meshing/GmshParser.y
@@ -153,7 +153,7 @@ number : FLOAT {
 	} |
 	INT
 	{
-	    $$ = $1;
+	    $$ = $<dval>1;
 	}
 	;
 
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index 4b700f2..aaa79fe 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -9,6 +9,8 @@ SPDX-License-Identifier: Apache-2.0
 #include "Gmshyystype.hh"
 #include "GmshReader.hh"
 #include "GmshParser.hh"
+#include <cmath>
+#include <limits>
 #include <sstream>
 #define YY_NO_UNPUT
 #ifdef _WIN32
@@ -44,7 +46,15 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <NODES_SEC>{float1}|{float2}|{float3}    {Gmshlval.dval = atof(yytext); return FLOAT;}
 
-<PHYSICALNAMES_SEC,NODES_SEC,ELEMENTS_SEC>{integer}   {Gmshlval.dval = atof(yytext); Gmshlval.ival = atof(yytext); return INT;}
+<PHYSICALNAMES_SEC,NODES_SEC,ELEMENTS_SEC>{integer}   {
+                Gmshlval.dval = atof(yytext);
+                if (std::abs(Gmshlval.dval) > std::numeric_limits<int>::max())
+                {
+                  return FLOAT;
+                }
+                Gmshlval.ival = static_cast<int>(Gmshlval.dval);
+                return INT;
+            }
 
 <INITIAL>^\$MeshFormat {
 		yy_push_state(MESHFORMAT_SEC);
-- 
2.43.0


From 3a709596593f9c1aed3860e76903f3ed65b2c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 079/112] fix: a mesh which could not be read was kept, and
 with it the state of the parser

---
 src/meshing/GmshReader.cc |  8 +++---
 src/meshing/GmshScanner.l | 52 +++++++++++++++++++++++++++------------
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 47e217a..87181be 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -24,9 +24,8 @@ void DeletePointers()
 
 bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &coordinates, const std::vector<std::string> &physical_names, const std::vector<size_t> &elements, std::string &errorString)
 {
-  dsMesh::GmshLoaderPtr gmshLoaderp = new dsMesh::GmshLoader(meshName);
-  dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-  mk.AddMesh(gmshLoaderp);
+  //// The mesh is kept once everything was accepted
+  std::unique_ptr<dsMesh::GmshLoader> gmshLoaderp(new dsMesh::GmshLoader(meshName));
 
   dsMesh::GmshLoader &gmshLoader = *gmshLoaderp;
 
@@ -150,6 +149,9 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     }
   }
 
+  dsMesh::MeshKeeper::GetInstance().AddMesh(gmshLoaderp.get());
+  gmshLoaderp.release();
+
   return true;
 }
 }
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index aaa79fe..1dce10b 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -12,7 +12,10 @@ SPDX-License-Identifier: Apache-2.0
 #include <cmath>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #define YY_NO_UNPUT
+//// the default ends the process
+#define YY_FATAL_ERROR(msg) throw std::runtime_error(msg)
 #ifdef _WIN32
 #include <io.h>
 #define YY_NO_UNISTD_H
@@ -123,14 +126,38 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 %%
 
 int Gmshparse();
+int Gmsherror(const char *);
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
+
+namespace {
+//// Nothing of an unfinished load is kept for the next one
+struct ParseCleanup {
+  ~ParseCleanup()
+  {
+    delete dsGmshParse::GmshLoader;
+    dsGmshParse::GmshLoader = nullptr;
+    if (Gmshin)
+    {
+      while (yy_start_stack_ptr > 0)
+      {
+        yy_pop_state();
+      }
+      BEGIN(INITIAL);
+      yy_delete_buffer( YY_CURRENT_BUFFER );
+      fclose(Gmshin);
+      Gmshin = nullptr;
+    }
+  }
+};
+}
+
 namespace dsGmshParse {
 bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
 {
     bool ret = false;
     dsGmshParse::errors.clear();
-    dsGmshParse::meshlineno = 0;
+    dsGmshParse::meshlineno = 1;
 
 
     if (dsGmshParse::GmshLoader)
@@ -140,17 +167,9 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
       errorString += os.str();
       return false;
     }
-    else
-    {
-      dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
-      dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-      mk.AddMesh(dsGmshParse::GmshLoader);
-    }
 
     Gmshin = fopen(fname.c_str(), "r");
 
-    int retval = 1;
-
     if ( !Gmshin )
     {
 	std::ostringstream os;
@@ -159,18 +178,19 @@ bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, s
     }
     else
     {
+        dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
         Gmsh_switch_to_buffer(Gmsh_create_buffer( Gmshin, YY_BUF_SIZE ) );
-	retval = Gmshparse();
-	yy_delete_buffer( YY_CURRENT_BUFFER );
+        ParseCleanup cleanup;
+	ret = !Gmshparse();
+        if (ret)
+        {
+          dsMesh::MeshKeeper::GetInstance().AddMesh(dsGmshParse::GmshLoader);
+          dsGmshParse::GmshLoader = nullptr;
+        }
     }
 
-
-    ret = !retval;
-
     dsGmshParse::DeletePointers();
     errorString += dsGmshParse::errors;
-    dsGmshParse::GmshLoader = NULL;
     return ret;
 }
 }
-
-- 
2.43.0


From 655e82c2cc22151ccb184e5706fe1425a2071d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 080/112] fix: the physical index past the last name was
 accepted for an element

---
 src/meshing/GmshReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 87181be..90365d3 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -92,7 +92,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     size_t physical_number = elements[eeindex + 1];
 
-    if (physical_number > physical_names.size())
+    if (physical_number >= physical_names.size())
     {
       std::ostringstream os;
       os << "ERROR: element physical index " << physical_number << " must be less than number of physical_names " << physical_names.size() <<  " on element " << element_count << " on position " << eeindex + 1 << "\n";
-- 
2.43.0


From 81d694f57b4f30ce89e78f1bccd5be7d6691b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 081/112] fix: elements could refer to coordinates which are
 not given

---
 src/meshing/GmshReader.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 90365d3..b51947d 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -115,7 +115,15 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     for (size_t i = 0; i < nodes_to_get; ++i)
     {
-      node_indexes[i] = elements[eeindex + i + 2];
+      const size_t node_index = elements[eeindex + i + 2];
+      if (node_index >= num_coords)
+      {
+        std::ostringstream os;
+        os << "ERROR: element node index " << node_index << " must be less than number of coordinates " << num_coords <<  " on element " << element_count << " on position " << eeindex + i + 2 << "\n";
+        errorString = os.str();
+        return false;
+      }
+      node_indexes[i] = static_cast<int>(node_index);
     }
 
     gmshLoader.AddElement(dsMesh::GmshElement(element_count, physical_number, element_type, node_indexes));
-- 
2.43.0


From 8ea685b9ef72652cdcd88dabf56d92eb63311d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 082/112] fix: physical names which are not in a mesh were
 ignored

---
 src/meshing/GmshLoader.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 6d0ec95..5ec5fc6 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -773,6 +773,33 @@ bool GmshLoader::Finalize_(std::string &errorString)
     }
   }
 
+  auto checkPhysicalNames = [this, &ret](const std::string &what, const std::string &name, const std::vector<std::string> &pnames)
+  {
+    for (const auto &pname : pnames)
+    {
+      if (gmshShapesMap.count(pname) == 0)
+      {
+        ret = false;
+        std::ostringstream os;
+        os << what << " " << name << " refers to physical group name " << pname << " which has no elements.\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
+    }
+  };
+
+  for (const auto &it : regionMap)
+  {
+    checkPhysicalNames("Region", it.first, it.second.physical_names);
+  }
+  for (const auto &it : contactMap)
+  {
+    checkPhysicalNames("Contact", it.first, it.second.physical_names);
+  }
+  for (const auto &it : interfaceMap)
+  {
+    checkPhysicalNames("Interface", it.first, it.second.physical_names);
+  }
+
   errorString += "Check log for errors.\n";
   if (ret)
   {
-- 
2.43.0


From 27ebb7abdc179f6a03a945cbe3f56cf35b297285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 083/112] fix: Gmsh files which end early or do not have the
 entries they announce were accepted

---
 src/meshing/GmshParser.y | 91 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 90 insertions(+), 1 deletion(-)

diff --git a/src/meshing/GmshParser.y b/src/meshing/GmshParser.y
index 056cbea..d604b90 100644
--- a/src/meshing/GmshParser.y
+++ b/src/meshing/GmshParser.y
@@ -20,6 +20,19 @@ int Gmsherror(const char *msg);
 int Gmshlex();
 
 bool processElement(dsMesh::GmshLoader &, const std::vector<int> &);
+
+namespace {
+//// What a section promised, and what was seen of it
+const char *section_name = nullptr;
+int  section_expected = 0;
+int  section_count    = 0;
+bool has_nodes        = false;
+bool has_elements     = false;
+
+void beginSection(const char *, int);
+bool endSection();
+bool endFile();
+}
 %}
 
 //%token HELP
@@ -36,7 +49,13 @@ bool processElement(dsMesh::GmshLoader &, const std::vector<int> &);
 %type <ilist> intlist
 
 %%
-all : | meshformat
+all : meshformat
+    {
+      if (!endFile())
+      {
+        YYABORT;
+      }
+    }
     ;
 
 meshformat :
@@ -52,6 +71,9 @@ meshformat :
             Gmsherror(os.str().c_str());
             YYABORT;
           }
+          section_name = nullptr;
+          has_nodes    = false;
+          has_elements = false;
         }
         | meshformat physicalnames
         | meshformat nodes
@@ -61,6 +83,9 @@ meshformat :
 
 physicalnames :
         BEG_PHYSICALNAMES EOL INT EOL
+        {
+          beginSection("PhysicalNames", $3);
+        }
         | physicalnames INT INT WORD EOL
         {
           if (($2 < 0) || ($2 > 3))
@@ -87,16 +112,25 @@ physicalnames :
           else
           {
             dsGmshParse::GmshLoader->AddPhysicalName($2, $3, $4);
+            ++section_count;
           }
         }
         | physicalnames END_PHYSICALNAMES EOL
         {
           /// Verify we get the expected number
+          if (!endSection())
+          {
+            YYABORT;
+          }
         }
         ;
 
 nodes :
         BEG_NODES EOL INT EOL
+        {
+          beginSection("Nodes", $3);
+          has_nodes = true;
+        }
         | nodes INT number number number EOL
         {
           /// enforce that node index is a positive number
@@ -110,16 +144,25 @@ nodes :
           else
           {
             dsGmshParse::GmshLoader->AddCoordinate($2, dsMesh::MeshCoordinate($3, $4, $5));
+            ++section_count;
           }
         }
         | nodes END_NODES
         {
           /// Verify we get the expected number
+          if (!endSection())
+          {
+            YYABORT;
+          }
         }
         ;
 
 elements :
         BEG_ELEMENTS EOL INT EOL
+        {
+          beginSection("Elements", $3);
+          has_elements = true;
+        }
         | elements intlist EOL
         {
           /// here we are processing a list of numbers since the number we expect are based on element type and tag properties
@@ -128,10 +171,15 @@ elements :
           {
             YYABORT;
           }
+          ++section_count;
         }
         | elements END_ELEMENTS
         {
           /// Verify we get the expected number
+          if (!endSection())
+          {
+            YYABORT;
+          }
         }
         ;
 
@@ -167,6 +215,47 @@ int Gmsherror(const char *msg) {
     return 0;
 }
 
+namespace {
+void beginSection(const char *name, int expected)
+{
+  section_name     = name;
+  section_expected = expected;
+  section_count    = 0;
+}
+
+bool endSection()
+{
+  bool ret = true;
+  if (section_count != section_expected)
+  {
+    std::ostringstream os;
+    os << "ERROR: section " << section_name << " has " << section_count << " entries and not " << section_expected << "\n";
+    Gmsherror(os.str().c_str());
+    ret = false;
+  }
+  section_name = nullptr;
+  return ret;
+}
+
+bool endFile()
+{
+  bool ret = true;
+  if (section_name)
+  {
+    std::ostringstream os;
+    os << "ERROR: section " << section_name << " is not ended\n";
+    Gmsherror(os.str().c_str());
+    ret = false;
+  }
+  else if (!has_nodes || !has_elements)
+  {
+    Gmsherror("ERROR: section Nodes or Elements is missing\n");
+    ret = false;
+  }
+  return ret;
+}
+}
+
 bool processElement(dsMesh::GmshLoader &gmsh, const std::vector<int> &ilist)
 {
 
-- 
2.43.0


From 7a77ecc0e9bb80014a5095318b2dfe40ecf4d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 084/112] fix: contacts and interfaces with nodes outside of
 their region crashed creating the device

---
 src/meshing/GmshLoader.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 5ec5fc6..c30a66b 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -455,6 +455,11 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         ret = false;
         continue;
       }
+      else if (cnodes.size() != mesh_nodes.size())
+      {
+        //// elements refer to nodes which do not exist
+        continue;
+      }
 
       // All of our contact nodes should exist
       ConstNodePtr mesh_edge_nodes[2];
@@ -640,6 +645,11 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         ret = false;
         continue;
       }
+      else if (inodes[0].size() != mesh_nodes.size())
+      {
+        //// elements refer to nodes which do not exist
+        continue;
+      }
 
       // All of our contact nodes should exist
       ConstNodePtr mesh_edge_nodes[2];
-- 
2.43.0


From 1e2d8ef1e14013bd180fd3c4f2617f8d0f9fe0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 085/112] fix: the error for a device which could not be
 created from a Gmsh mesh was empty

---
 src/meshing/GmshLoader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index c30a66b..77e3e9f 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -720,6 +720,10 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
   //// finalize device and region
   //// create the nodes
   //// create the edges
+  if (!ret)
+  {
+    errorString += "Check log for errors.\n";
+  }
   return ret;
 }
 
-- 
2.43.0


From c119b3da298f6b158c3cc0e0ab735316e506a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 086/112] fix: regions without elements of the dimension of the
 device were accepted

---
 src/meshing/GmshLoader.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 77e3e9f..5aab906 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -803,7 +803,20 @@ bool GmshLoader::Finalize_(std::string &errorString)
 
   for (const auto &it : regionMap)
   {
-    checkPhysicalNames("Region", it.first, it.second.physical_names);
+    const auto &pnames = it.second.physical_names;
+    checkPhysicalNames("Region", it.first, pnames);
+
+    auto fillsRegion = [this](const std::string &pname) {
+      auto sit = gmshShapesMap.find(pname);
+      return (sit != gmshShapesMap.end()) && (sit->second.GetDimension() == dimension);
+    };
+    if (std::none_of(pnames.begin(), pnames.end(), fillsRegion))
+    {
+      ret = false;
+      std::ostringstream os;
+      os << "Region " << it.first << " does not have any elements with the dimension of the mesh, which is " << dimension << ".\n";
+      OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+    }
   }
   for (const auto &it : contactMap)
   {
-- 
2.43.0


From 1f741487a110dc9f53fc35a23febff53b58f65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 087/112] fix: contacts and interfaces of tetrahedra were
 accepted

---
 src/meshing/GmshLoader.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 5aab906..600c021 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -394,6 +394,18 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
         ret = false;
       }
+      else if (dimension == 3)
+      {
+        MeshTetrahedronList_t mesh_tetrahedra;
+        GetUniqueTetrahedraFromPhysicalNames(pnames, mesh_tetrahedra);
+        if (!mesh_tetrahedra.empty())
+        {
+          std::ostringstream os;
+            os << "Contact " << contactName << " region name " << regionName << " must be 2 dimensional to be a contact.\n";
+          OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+          ret = false;
+        }
+      }
 
       Region *regionptr = dp->GetRegion(regionName);
       if (!regionptr)
@@ -588,6 +600,18 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
         ret = false;
       }
+      else if (dimension == 3)
+      {
+        MeshTetrahedronList_t mesh_tetrahedra;
+        GetUniqueTetrahedraFromPhysicalNames(pnames, mesh_tetrahedra);
+        if (!mesh_tetrahedra.empty())
+        {
+          std::ostringstream os;
+            os << "Interface " << interfaceName << " on regions " << regionName0 << " and " << regionName1 << " must be 2 dimensional to be interface.\n";
+          OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+          ret = false;
+        }
+      }
 
       for (size_t i = 0; i < 2; ++i)
       {
-- 
2.43.0


From 14babd67eff83a25d24c77506a6b6c0dda62bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:51 +0000
Subject: [PATCH 088/112] fix: the number of tags of an element in a Gmsh file
 could overflow

---
 src/meshing/GmshParser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/GmshParser.y b/src/meshing/GmshParser.y
index d604b90..f3772fa 100644
--- a/src/meshing/GmshParser.y
+++ b/src/meshing/GmshParser.y
@@ -364,7 +364,7 @@ bool processElement(dsMesh::GmshLoader &gmsh, const std::vector<int> &ilist)
       return false;
   }
 
-  const size_t element_node_begin = 3 + number_tags;
+  const size_t element_node_begin = size_t(3) + number_tags;
 
   std::vector<int> indexes;
   indexes.reserve(4);
-- 
2.43.0


From 6e578518ee4d4b4811f83fe6c7bdfccc60eb1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 089/112] fix: large numbers were taken for other types of
 elements

---
 src/meshing/GmshReader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index b51947d..e1fd311 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -50,7 +50,10 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
   std::map<size_t, size_t> physical_dimensions;
   for (eeindex = 0; eeindex < element_vec_len;)
   {
-    dsMesh::Shapes::ElementType_t element_type = static_cast<dsMesh::Shapes::ElementType_t>(elements[eeindex]);
+    //// the type of the enumeration is smaller
+    const size_t type_number = elements[eeindex];
+    const dsMesh::Shapes::ElementType_t element_type = (type_number <= static_cast<size_t>(dsMesh::Shapes::ElementType_t::TETRAHEDRON)) ?
+      static_cast<dsMesh::Shapes::ElementType_t>(type_number) : dsMesh::Shapes::ElementType_t::UNKNOWN;
     switch (element_type)
     {
       case dsMesh::Shapes::ElementType_t::POINT:
@@ -78,7 +81,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     if (nodes_to_get == 0)
     {
       std::ostringstream os;
-      os << "ERROR: element " << static_cast<size_t>(element_type) << " unrecognized type position " << eeindex << "\n";
+      os << "ERROR: element " << type_number << " unrecognized type position " << eeindex << "\n";
       errorString = os.str();
       return false;
     }
-- 
2.43.0


From 9a4f4b19669b438b65fc16c11709db5a85f22e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 090/112] fix: an element list which ends one number early was
 read past its end

---
 src/meshing/GmshReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index e1fd311..b1035ae 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -85,7 +85,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
       errorString = os.str();
       return false;
     }
-    else if ((eeindex + nodes_to_get + 1) > element_vec_len)
+    else if ((eeindex + nodes_to_get + 2) > element_vec_len)
     {
       std::ostringstream os;
       os << "ERROR: element list indexing error on element " << element_count << "\n";
-- 
2.43.0


From bfb989338bfc1e1304696e7365cbf85da419481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 091/112] fix: a mesh was kept when its file had numbers out of
 range

---
 src/meshing/GmshScanner.l | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index 1dce10b..c657fed 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -47,7 +47,11 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <*>[\n]	{++dsGmshParse::meshlineno; return EOL;}
 
-<NODES_SEC>{float1}|{float2}|{float3}    {Gmshlval.dval = atof(yytext); return FLOAT;}
+<NODES_SEC>{float1}|{float2}|{float3}    {
+                Gmshlval.dval = atof(yytext);
+                //// a number which is out of range is not one
+                return std::isfinite(Gmshlval.dval) ? FLOAT : 1;
+            }
 
 <PHYSICALNAMES_SEC,NODES_SEC,ELEMENTS_SEC>{integer}   {
                 Gmshlval.dval = atof(yytext);
-- 
2.43.0


From 76db6b1d0dea10e2baa9fe7977e84765c34c3066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 092/112] fix: mesh points were merged or almost repeated when
 the device is not of unit size

---
 src/meshing/MeshUtil.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/meshing/MeshUtil.cc b/src/meshing/MeshUtil.cc
index 8ec4d1a..d64d192 100644
--- a/src/meshing/MeshUtil.cc
+++ b/src/meshing/MeshUtil.cc
@@ -11,11 +11,14 @@ SPDX-License-Identifier: Apache-2.0
 #include "Vector.hh"
 #include "EdgeModel.hh"
 
+#include <algorithm>
 #include <cmath>
 using std::abs;
 
 namespace MeshUtil {
 const double tolerance=1.0e-10;
+/// Points closer than this fraction of the spacing are the same point
+const double point_fraction=1.0e-3;
 
 pts_t equidistance(double xl, double xh, double sl)
 {
@@ -25,10 +28,11 @@ pts_t equidistance(double xl, double xh, double sl)
     while (x < xh)
     {
         x += sl;
-        if (x > (xh - tolerance))
+        if (x > (xh - point_fraction * sl))
         {
             x = xh;
         }
+        dsAssert(x > ret.back(), "spacing is too small for the position of the mesh line");
         ret.push_back(x);
     }
     return ret;
@@ -47,14 +51,16 @@ pts_t variable(double xl, double xh, double sl, double sh)
     ret.push_back(xl);
     for (size_t i = 0; x < xh; ++i)
     {
-        x += sl*pow(r, int(i));
-        if (x > (xh - tolerance))
+        const double step = sl*pow(r, int(i));
+        x += step;
+        dsAssert(x > ret.back(), "spacing is too small for the position of the mesh line");
+        if (x > (xh - point_fraction * std::min(step, sh)))
         {
             x = xh;
 
             /// need to have at least one pt with the minimum spacing
             double tpos = x - sh;
-            if (ret.back() < tpos)
+            if ((ret.back() < (tpos - point_fraction * sh)) && (tpos < x))
             {
                 ret.push_back(tpos);
             }
-- 
2.43.0


From 6248924d93aa315c4b5c129f0325d2797d3af899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 093/112] fix: mesh lines at infinity made the mesher run
 forever

---
 src/meshing/MeshUtil.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshing/MeshUtil.cc b/src/meshing/MeshUtil.cc
index d64d192..e85d30c 100644
--- a/src/meshing/MeshUtil.cc
+++ b/src/meshing/MeshUtil.cc
@@ -75,6 +75,8 @@ pts_t variable(double xl, double xh, double sl, double sh)
 pts_t getPoints(double xl, double xh, double sl, double sh)
 {
     dsAssert(xl < xh, "UNEXPECTED");
+    dsAssert(std::isfinite(xh - xl), "the position of a mesh line must be a number");
+    dsAssert((sl > 0.0) && (sh > 0.0), "the spacing at a mesh line must be positive");
 /*
     if (xh < xl)
     {
-- 
2.43.0


From 4756f26cfa1e8a274259205449266c2bd42d08b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 094/112] fix: the comparison to sort regions of 1d meshes was
 not an ordering

---
 src/meshing/Mesh1d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshing/Mesh1d.cc b/src/meshing/Mesh1d.cc
index 04d986b..9b24c1f 100644
--- a/src/meshing/Mesh1d.cc
+++ b/src/meshing/Mesh1d.cc
@@ -117,7 +117,7 @@ struct RegionSort
     {
         dsAssert(r0.GetIndex0() < r0.GetIndex1(), "UNEXPECTED");
         dsAssert(r1.GetIndex0() < r1.GetIndex1(), "UNEXPECTED");
-        return (r0.GetIndex0() < r1.GetIndex1());
+        return (r0.GetIndex0() < r1.GetIndex0());
     }
 };
 }
-- 
2.43.0


From 6284574daab9bf254c80604f374105c87110363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 095/112] fix: a 1d mesh could not be finalized once corrected

---
 src/meshing/Mesh1d.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshing/Mesh1d.cc b/src/meshing/Mesh1d.cc
index 9b24c1f..6e2b98c 100644
--- a/src/meshing/Mesh1d.cc
+++ b/src/meshing/Mesh1d.cc
@@ -314,6 +314,14 @@ bool Mesh1d::Finalize_(std::string &errorString)
         return ret;
     }
 
+    //// A previous attempt may have failed
+    locations.clear();
+    tagsToIndices.clear();
+    indicesToTags.clear();
+    indexToContactIndex.clear();
+    indexToInterfaceIndex.clear();
+    indexToRegionIndex.clear();
+
     SetLocationsAndTags();
 
     //// Here we enforce that the first index must be less than the second
-- 
2.43.0


From 1db654efe78d7d31914f382ed9a4c5b362ec56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 096/112] fix: contacts and interfaces of 2d meshes on unknown
 regions were ignored

---
 src/meshing/Mesh2d.cc | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/meshing/Mesh2d.cc b/src/meshing/Mesh2d.cc
index 9da8c9f..5c00a70 100644
--- a/src/meshing/Mesh2d.cc
+++ b/src/meshing/Mesh2d.cc
@@ -167,6 +167,36 @@ bool Mesh2d::Finalize_(std::string &errorString)
         }
     }
 
+    /// Regions for contacts and interfaces
+    {
+        for (MeshContact2dList_t::const_iterator it = contacts.begin(); it != contacts.end(); ++it)
+        {
+            const std::string &r = it->second->GetRegion();
+            if (!regions.count(r))
+            {
+                ret = false;
+                errorString += "Region " + r + " of contact " + it->first + " does not exist\n";
+            }
+        }
+
+        for (MeshInterface2dList_t::const_iterator it = interfaces.begin(); it != interfaces.end(); ++it)
+        {
+            for (const std::string &r : {it->second->GetRegion0(), it->second->GetRegion1()})
+            {
+                if (!regions.count(r))
+                {
+                    ret = false;
+                    errorString += "Region " + r + " of interface " + it->first + " does not exist\n";
+                }
+            }
+        }
+
+        if (!ret)
+        {
+            return ret;
+        }
+    }
+
     {
         std::vector<double> xlocs = GetLocations(xlines);
         std::vector<double> ylocs = GetLocations(ylines);
-- 
2.43.0


From 08c8831dd4b64b3d85cdcf202432fcef3ad8e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 097/112] fix: only the first box of a 2d region, contact or
 interface was used

---
 src/commands/MeshingCommands.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index ce93994..a919789 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -462,9 +462,9 @@ add2dInterfaceCmd(CommandHandler &data)
         else
         {
             dsMesh::MeshInterface2dPtr ip(new dsMesh::MeshInterface2d(name, region0Name, region1Name));
-            m2dp->AddInterface(ip);
             dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
             ip->AddBoundingBox(bb);
+            m2dp->AddInterface(ip);
             data.SetEmptyResult();
         }
     }
@@ -523,9 +523,9 @@ add2dContactCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshContact2dPtr cp(new dsMesh::MeshContact2d(name, materialName, regionName));
-        m2dp->AddContact(cp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         cp->AddBoundingBox(bb);
+        m2dp->AddContact(cp);
         data.SetEmptyResult();
     }
 }
@@ -628,9 +628,9 @@ add2dRegionCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshRegion2dPtr rp(new dsMesh::MeshRegion2d(regionName, materialName));
-        m2dp->AddRegion(rp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         rp->AddBoundingBox(bb);
+        m2dp->AddRegion(rp);
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From 4696b050c028c6b17635a9a1ab0da11ec3bbc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 098/112] fix: the model compiler generated code after errors
 in the arguments of functions

Wrong numbers of arguments were reported, replaced by zero, and the program
exited with success.
---
 src/adiff/mcParser.y | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/adiff/mcParser.y b/src/adiff/mcParser.y
index 7e7a652..5609907 100644
--- a/src/adiff/mcParser.y
+++ b/src/adiff/mcParser.y
@@ -189,13 +189,20 @@ expression :
 		    os << "Function \""
 			<< $1 << "\" expects 1 argument and you provided " <<  $3.size();
 		    std::string foo = os.str();
-		    yyerror(foo.c_str());
+		    mcerror(foo.c_str());
+		    exit(-1);
 		    $$ = Eqo::con(0.0);
 		}
 	   } |
 	   BINARYFUNC '(' varobj ')' {
 		if ($3.size() == 2)
 		{
+		    const Eqo::EqObjType type = $3[1]->getType();
+		    if ($1 == "diff" && type != Eqo::VARIABLE_OBJ && type != Eqo::MODEL_OBJ)
+		    {
+			mcerror("Function \"diff\" expects a name as its second argument");
+			exit(-1);
+		    }
 		    $$ = Eqo::getBinaryFuncPtr($1)($3[0], $3[1]) ;
 		}
 		else
@@ -204,7 +211,8 @@ expression :
 		    os << "Function \""
 			<< $1 << "\" expects 2 arguments and you provided " <<  $3.size();
 		    std::string foo = os.str();
-		    yyerror(foo.c_str());
+		    mcerror(foo.c_str());
+		    exit(-1);
 		    $$ = Eqo::con(0.0);
 		}
 	    } |
@@ -235,7 +243,8 @@ userfunccmd :
 		    os << "argument list not the same size as the object list "
 			<< $4.size() << " args versus " <<  $7.size() << " objects";
 		    std::string foo = os.str();
-		    yyerror(foo.c_str());
+		    mcerror(foo.c_str());
+		    exit(-1);
 		}
 		else
 		{
@@ -272,7 +281,8 @@ userfunccmd :
 			<< ulen << " argument(s), but is being redefined with " <<
 			nargs << " arguments(s).";
 		    std::string foo = os.str();
-		    yyerror(foo.c_str());
+		    mcerror(foo.c_str());
+		    exit(-1);
 		}
 		else if ($4.size() != $7.size())
 		{
@@ -280,7 +290,8 @@ userfunccmd :
 		    os << "argument list for " << $2 << " is not the same size as the object list. "
 			<< $4.size() << " args versus " <<  $7.size() << " objects";
 		    std::string foo = os.str();
-		    yyerror(foo.c_str());
+		    mcerror(foo.c_str());
+		    exit(-1);
 		}
 		else
 		{
@@ -311,7 +322,8 @@ userfunccmd :
 		os << $2 << " has already been declared with "
 		    << Eqo::UserFuncMap[$2].size() << " argument(s)";
 		std::string foo = os.str();
-		yyerror(foo.c_str());
+		mcerror(foo.c_str());
+		    exit(-1);
 	   }
 	   ;
 
@@ -327,7 +339,8 @@ userfunc :
 			<< ulen << " argument(s), but has been supplied with " <<
 			vlen << " arguments(s).";
 		    std::string foo = os.str();
-		    yyerror(foo.c_str());
+		    mcerror(foo.c_str());
+		    exit(-1);
 		    $$ = Eqo::con(0.0);
 		}
 		else
-- 
2.43.0


From 95505dd1fa9c4f9d334405cac68ba46e6d09c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 099/112] fix: generated models were used before their
 definition

A model first needed by a derivative is written with the derivatives, after
an equation which needs it too.
---
 src/adiff/mcTest.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 5822bcd..9eb797f 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -769,6 +769,22 @@ else if (atype == ACASSEMBLE)
    "   if (!" << nodeIsGndName(tmpname) << ")\n"
    "      rhs.push_back(std::make_pair(" << nodeNbrName(tmpname)  << ", " << seemit->first << "));\n";
 
+   }
+
+   // the models needed by any equation precede the derivatives
+   for (seemit=EquationList.begin(); seemit != EquationList.end(); ++seemit)
+   {
+      Eqo::EqObjPtr pt;
+      if (atype == DCASSEMBLE)
+         pt = seemit->second.first;
+      else if (atype == ACASSEMBLE)
+         pt = seemit->second.second;
+
+      if (pt ->isZero())
+         continue;
+
+      std::string tmpname=(EquationToNodeMap[seemit->first]);
+
       bos[MATRIX] <<
 "   if (!" << nodeIsGndName(tmpname) << ")\n"
 "   {\n";
-- 
2.43.0


From 7250b4a511715c7c2380d37d4aad7f86efb8acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 100/112] fix: generated code used nodes without an equation of
 the same kind

The value and number of a node were only written when its own equation was
not zero, and the generated code did not compile.
---
 src/adiff/mcTest.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 9eb797f..d63369b 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -721,10 +721,24 @@ else if (atype == ACASSEMBLE)
 
    out <<
 "{\n";
+   ostringstream bos[7];
+   // an equation can depend on nodes which have no equation of this kind
+   for (lit = TotalNodeList.begin(); lit != TotalNodeList.end(); ++lit)
+   {
+      const std::string &tmpname = *lit;
+      bos[EQNNUMBER] <<
+"   const size_t " << nodeNbrName(tmpname) << " = " << nodePtrName(tmpname) << "->getNumber();\n";
+
+      bos[ISGROUND] <<
+"   const bool   " << nodeIsGndName(tmpname) << " = " << nodePtrName(tmpname) << "->isGROUND();\n";
+
+      bos[SOLUTION] <<
+"   const double " << tmpname << " = (" << nodeIsGndName(tmpname) << ") ? 0.0 : " "sol[" << nodeNbrName(tmpname) << "];\n";
+   }
+
    // go through all the equations
    typedef std::map<std::string, std::pair<Eqo::EqObjPtr, Eqo::EqObjPtr> >::iterator StrEqEqMapIt;
    StrEqEqMapIt seemit, seemend;
-   ostringstream bos[7];
    seemend=EquationList.end();
    for (seemit=EquationList.begin(); seemit != EquationList.end(); ++seemit)
    {
@@ -739,16 +753,6 @@ else if (atype == ACASSEMBLE)
 
       std::string tmpname=(EquationToNodeMap[seemit->first]);
 
-      bos[EQNNUMBER] <<
-"   const size_t " << nodeNbrName(tmpname) << " = " << nodePtrName(tmpname) << "->getNumber();\n";
-
-      bos[ISGROUND] <<
-"   const bool   " << nodeIsGndName(tmpname) << " = " << nodePtrName(tmpname) << "->isGROUND();\n";
-
-      bos[SOLUTION] <<
-"   const double " << tmpname << " = (" << nodeIsGndName(tmpname) << ") ? 0.0 : " "sol[" << nodeNbrName(tmpname) << "];\n";
-
-
 //       out << "calling print for equation!\n";
 //       out << seemit->second.first << "\n";
       bos[MODEL] << printForEquation(wasModelProcessed, pt);
-- 
2.43.0


From 9c405b91d473da92c1b71190189df054d6475e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 101/112] fix: the model compiler wrote numbers with six digits

This concerns parameters and integers of seven digits and more.  Integers too
large for an int were read wrong, and the products of others overflowed in
the generated code.
---
 src/adiff/EquationObject.cc | 11 ++++++++---
 src/adiff/mcScanner.l       |  2 +-
 src/adiff/mcTest.cc         |  4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 20d800d..42ca56a 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -289,9 +289,14 @@ Constant::Constant(double x) : EquationObject(CONST_OBJ), dvalue(x)
 std::string Constant::createStringValue()
 {
     std::ostringstream os;
-    if (dvalue != floor(dvalue))
+    // integers keep all of their digits, and are not evaluated as type int
+    if (dvalue != floor(dvalue) || fabs(dvalue) >= 1.0e6)
     {
-      os << std::scientific << std::setprecision(15);
+      os << std::scientific << std::setprecision(16);
+    }
+    else
+    {
+      os << std::fixed << std::setprecision(1);
     }
     if (dvalue < 0.0)
     {
@@ -397,7 +402,7 @@ std::string Product::createStringValue()
     {
         const std::string &s = values[0]->stringValue();
         size_t beg = 1;
-        if (len > 1 && s == "(-1)")
+        if (len > 1 && values[0]->getType() == CONST_OBJ && static_cast<Constant *>(values[0].get())->getDoubleValue() == -1.0)
         {
             os << "-" << values[1];
             beg = 2;
diff --git a/src/adiff/mcScanner.l b/src/adiff/mcScanner.l
index ae18862..ba39aef 100644
--- a/src/adiff/mcScanner.l
+++ b/src/adiff/mcScanner.l
@@ -52,7 +52,7 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 {float1}|{float2}|{float3}    {yylval.dval = atof(yytext); return FLOAT;}
 
-{integer}   {yylval.dval = atoi(yytext); return INT;}
+{integer}   {yylval.dval = atof(yytext); return INT;}
 
 ^title  {yylval.str=yytext; return TITLE;}
 
diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index d63369b..621614c 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -566,7 +566,7 @@ out << "\n"
      {
         os <<
 "       double " << std::setw(15) << std::left << parameterListName(it->first) +
-              ";" <<  "//" << std::setw(20) << it->second.first << " " << std::scientific << it->second.second << "\n";
+              ";" <<  "//" << std::setw(20) << it->second.first << " " << std::scientific << std::setprecision(16) << it->second.second << "\n";
 
      }
      out << os.str();
@@ -632,7 +632,7 @@ ClassName << "::" << ClassName << "( NodeKeeper *nk, const char *name,\n";
       {
          os <<
 "       " << std::setw(15) << std::left << parameterListName(it->first) <<
-            " = " << std::scientific << it->second.second << ";\n";
+            " = " << std::scientific << std::setprecision(16) << it->second.second << ";\n";
       }
       out << os.str();
    }
-- 
2.43.0


From 8eb920b3f0c097288afdaf9ce416b5642c727c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 102/112] fix: the model compiler accepted undefined names

These resulted in code which does not compile, or in derivatives which are
wrong when it is the name of a model defined later.
---
 src/adiff/mcTest.cc | 66 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 3 deletions(-)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 621614c..14d27dc 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -12,6 +12,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "mcModel.hh"
 #include "dsAssert.hh"
 
+#include <algorithm>
 #include <iostream>
 #include <list>
 #include <sstream>
@@ -46,6 +47,7 @@ void print_cc(ofstream &, const string &);
 void GenerateEquationDerivatives();
 void PrintModelList();
 void CreateTotalNodeList();
+bool CheckUndefinedNames();
 
 enum assembletype_t {DCASSEMBLE, ACASSEMBLE};
 void PrintAssemblyRoutine(ofstream &, assembletype_t);
@@ -124,6 +126,14 @@ int main(int argc, char *argv[]) {
    }
 
 
+   CreateTotalNodeList();
+   GenerateEquationDerivatives();
+
+   if (!CheckUndefinedNames())
+   {
+      exit(-1);
+   }
+
    std::string hFileName = ClassName + ".hh";
    std::string cFileName = ClassName + ".cc";
 
@@ -142,9 +152,6 @@ int main(int argc, char *argv[]) {
    }
 
 
-    CreateTotalNodeList();
-    GenerateEquationDerivatives();
-
     PrintModelList();
 
    print_hh(headerFile);
@@ -411,6 +418,59 @@ void CreateTotalNodeList()
    cerr << endl;
 }
 
+namespace {
+// names are allowed to be used before their definition
+bool CheckUndefinedNames(const std::string &name, const Eqo::EqObjPtr &eq)
+{
+   bool ret = true;
+   std::set<std::string> vset;
+   if (eq->getType() == Eqo::VARIABLE_OBJ)
+   {
+      vset.insert(eq->stringValue());
+   }
+   else
+   {
+      vset = eq->getReferencedType(Eqo::VARIABLE_OBJ);
+   }
+
+   for (std::set<std::string>::iterator it = vset.begin(); it != vset.end(); ++it)
+   {
+      if ((ParameterList.count(*it) == 0) &&
+          (std::find(TotalNodeList.begin(), TotalNodeList.end(), *it) == TotalNodeList.end()))
+      {
+         cerr << "Undefined name " << *it << " in expression for " << name << "\n";
+         ret = false;
+      }
+   }
+   return ret;
+}
+}
+
+bool CheckUndefinedNames()
+{
+   bool ret = true;
+
+   // this includes the derivatives of models
+   typedef std::list<std::pair<std::string, Eqo::EqObjPtr> >::iterator StrEqListIt;
+   for (StrEqListIt it = ModelList.begin(); it != ModelList.end(); ++it)
+   {
+      ret = CheckUndefinedNames(it->first, it->second) && ret;
+   }
+
+   typedef std::map<std::string, std::pair<Eqo::EqObjPtr, Eqo::EqObjPtr> >::iterator StrEqEqMapIt;
+   for (StrEqEqMapIt it = EquationList.begin(); it != EquationList.end(); ++it)
+   {
+      ret = CheckUndefinedNames(it->first, it->second.first) && ret;
+      ret = CheckUndefinedNames(it->first, it->second.second) && ret;
+      for (std::list<std::string>::iterator nit = TotalNodeList.begin(); nit != TotalNodeList.end(); ++nit)
+      {
+         ret = CheckUndefinedNames(it->first, Eqo::diff(it->second.first, Eqo::var(*nit))) && ret;
+         ret = CheckUndefinedNames(it->first, Eqo::diff(it->second.second, Eqo::var(*nit))) && ret;
+      }
+   }
+   return ret;
+}
+
 void PrintModelList()
 {
    typedef std::list<std::pair<std::string, Eqo::EqObjPtr> >::iterator StrEqListIt;
-- 
2.43.0


From 532afce7d6685960a02371c821cf28cdd974b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 103/112] fix: powers of negative numbers were simplified to
 other values

(x^2)^0.5 became x, and log(x^2) became 2*log(x).
---
 src/adiff/EquationObject.cc | 29 +++++++++++++++++++++++++++--
 src/adiff/EquationObject.hh |  3 +++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 42ca56a..c1cd01c 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -1480,7 +1480,7 @@ EqObjPtr Log::Simplify()
    }
 
    ///log(pow(x,y))) = y*log(x);
-   if (value->getType() == POW_OBJ)
+   if (value->getType() == POW_OBJ && static_cast<Pow *>(value.get())->isBasePositive())
    {
       Pow *Y = static_cast<Pow *>(value.get());
       return (Y->exponent * log(Y->base));
@@ -1626,6 +1626,30 @@ EqObjPtr Pow::Derivative(EqObjPtr foo)
   return ret;
 }
 
+namespace {
+bool isInteger(EqObjPtr x)
+{
+  if (x->getType() != CONST_OBJ)
+  {
+    return false;
+  }
+  const double v = static_cast<Constant *>(x.get())->getDoubleValue();
+  return (v == floor(v));
+}
+}
+
+/// pow(x,y) with a negative x is positive for an even y
+bool Pow::isBasePositive()
+{
+  bool ret = false;
+  if (exponent->getType() == CONST_OBJ)
+  {
+    const double v = static_cast<Constant *>(exponent.get())->getDoubleValue();
+    ret = (fmod(v, 2.0) != 0.0);
+  }
+  return ret;
+}
+
 /**
  * if exponent is 0, return 1.0
  * if exponent is 1.0, return base
@@ -1662,7 +1686,8 @@ EqObjPtr Pow::Simplify()
 
    /// may want to do static cast
    /// pow(pow(x,y),z) = pow(x,(y*z))
-   if (b->getType() == POW_OBJ)
+   /// this is not true for an x which is negative, unless z is an integer
+   if (b->getType() == POW_OBJ && (isInteger(expo) || static_cast<Pow *>(b.get())->isBasePositive()))
    {
       Pow *Y = static_cast<Pow *>(b.get());
 //      cout << Y-> base << " " <<  (Y->exponent * exponent) << endl;
diff --git a/src/adiff/EquationObject.hh b/src/adiff/EquationObject.hh
index 3f64834..fef77a2 100644
--- a/src/adiff/EquationObject.hh
+++ b/src/adiff/EquationObject.hh
@@ -507,6 +507,9 @@ class Pow : public EquationObject {
           return createArgs(base, exponent);
         }
     private:
+        /// the exponent requires the base to be positive, when the result is
+        bool isBasePositive();
+
         std::string createStringValue();
 
         Pow(const Pow &);
-- 
2.43.0


From 6c1bac3502419de7542a4721b873aa5562f4c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 104/112] fix: derivatives of a declared function confused its
 arguments with other names

The names of the arguments were not reserved when the function had been
declared before, so that those in the expressions given to f(y, x) were
substituted twice.
---
 src/adiff/mcParser.y | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adiff/mcParser.y b/src/adiff/mcParser.y
index 5609907..64aaaea 100644
--- a/src/adiff/mcParser.y
+++ b/src/adiff/mcParser.y
@@ -300,10 +300,20 @@ userfunccmd :
 		    Eqo::UserDiffInfoVec udiv;
 		    std::vector<Eqo::EqObjPtr> f;
 
+		    // create special reserved names
+		    for (size_t i = 0; i < nargs; ++i)
+		    {
+			std::string foo = $4[i];
+			$4[i] = "@" + foo; // create reserved name
+			for (size_t j = 0; j < nargs; ++j)
+			{
+			    $7[j]=$7[j]->subst(foo, Eqo::var($4[i]));
+			}
+		    }
 		    for (size_t i = 0; i < nargs; ++i)
 		    {
 			udiv.push_back(std::make_pair($4[i], $7[i]));
-			f.push_back(Eqo::var($4[i]));
+			f.push_back(Eqo::var($4[i].substr(1)));
 		    }
 		    Eqo::SetUserFuncDiffs($2, udiv);
 		}
-- 
2.43.0


From 22c87fa29fa0b5cc6eefc1b3dfa8ecfb5dda6cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 105/112] fix: names in generated code replaced those of the
 model

A model called unique0 replaced a subexpression, a parameter called scl or
val could not be set, and e_x stood for the derivative of e by x instead of a
parameter with that name.
---
 src/adiff/mcParser.y |  4 ++++
 src/adiff/mcTest.cc  | 28 +++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/adiff/mcParser.y b/src/adiff/mcParser.y
index 64aaaea..e4d9b4a 100644
--- a/src/adiff/mcParser.y
+++ b/src/adiff/mcParser.y
@@ -434,6 +434,10 @@ namespace {
       {
 	 out = "Cannot replace existing internal node name, ";
       }
+      else if (str == "sol" || str == "mat" || str == "rhs" || str == "scl")
+      {
+	 out = "Cannot use reserved name, ";
+      }
       else if (ParameterList.count(str))
       {
 	 out = "Cannot replace existing parameter list name, ";
diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 14d27dc..8604c7a 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -183,12 +183,24 @@ namespace {
       return x + "_" + y;
    }
 
+  bool isNameUsed(const std::string &x)
+  {
+    return isInModelList(x) || (EquationList.count(x) != 0) || (ParameterList.count(x) != 0) || (Eqo::UserFuncMap.count(x) != 0) ||
+      (std::find(TotalNodeList.begin(), TotalNodeList.end(), x) != TotalNodeList.end());
+  }
+
   std::string GetUniqueName()
   {
     static size_t i = 0;
-    std::ostringstream os;
-    os << "unique" << i++;
-    return os.str();
+    std::string ret;
+    do
+    {
+      std::ostringstream os;
+      os << "unique" << i++;
+      ret = os.str();
+    }
+    while (isNameUsed(ret));
+    return ret;
   }
 
   class SubExpr {
@@ -691,7 +703,7 @@ ClassName << "::" << ClassName << "( NodeKeeper *nk, const char *name,\n";
       for (Plistit it = ParameterList.begin(); it != ParameterList.end(); ++it)
       {
          os <<
-"       " << std::setw(15) << std::left << parameterListName(it->first) <<
+"       this->" << std::setw(15) << std::left << parameterListName(it->first) <<
             " = " << std::scientific << std::setprecision(16) << it->second.second << ";\n";
       }
       out << os.str();
@@ -723,7 +735,7 @@ out << "}\n";
     out <<
 " (" << "str == \"" << parameterListName(it->first) << "\")\n"
 "    {\n" <<
-"        " << parameterListName(it->first) << " = val;\n"
+"        this->" << parameterListName(it->first) << " = val;\n"
 "        ret = true;\n"
 "    }\n";
    }
@@ -835,6 +847,7 @@ else if (atype == ACASSEMBLE)
 
    }
 
+   std::set<std::string> derivNames;
    // the models needed by any equation precede the derivatives
    for (seemit=EquationList.begin(); seemit != EquationList.end(); ++seemit)
    {
@@ -864,6 +877,11 @@ else if (atype == ACASSEMBLE)
       bos[DERIV] << printForEquation(wasModelProcessed, ptdiff);
 
       std::string nm = EqDerivName(seemit->first, *lit);
+      while (isNameUsed(nm) || (derivNames.count(nm) != 0))
+      {
+         nm += "_";
+      }
+      derivNames.insert(nm);
       bos[DERIV] <<
 "   const double " << nm;
 
-- 
2.43.0


From ba652112cb9732ccdaa97959a9c3fcd669c3dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 106/112] fix: the model compiler did not report files it could
 not write

---
 src/adiff/mcTest.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 8604c7a..8575014 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -160,6 +160,12 @@ int main(int argc, char *argv[]) {
    print_cc(ccFile, hFileName);
    ccFile.close();
 
+   if (!headerFile || !ccFile)
+   {
+      cerr << "Could not write " << hFileName << " and " << cFileName << "\n";
+      exit(-1);
+   }
+
    return retval;
 }
 
-- 
2.43.0


From 2cff2d399790dbb7a44e817601a1c85586201d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 107/112] fix: the text of a parameter could have parts outside
 of its comment

---
 src/Circuit/models/ideal/IdealCapacitor.cc  | 16 +++++---
 src/Circuit/models/ideal/IdealCapacitor.hh  |  2 +-
 src/Circuit/models/ideal/IdealCapacitor.out | 20 +++++----
 src/Circuit/models/ideal/IdealInductor.cc   | 30 ++++++++------
 src/Circuit/models/ideal/IdealInductor.hh   |  2 +-
 src/Circuit/models/ideal/IdealInductor.out  | 45 +++++++++++----------
 src/Circuit/models/ideal/IdealResistor.cc   | 18 ++++++---
 src/Circuit/models/ideal/IdealResistor.hh   |  2 +-
 src/Circuit/models/ideal/IdealResistor.out  | 26 +++++++-----
 src/adiff/mcTest.cc                         |  5 ++-
 10 files changed, 99 insertions(+), 67 deletions(-)

diff --git a/src/Circuit/models/ideal/IdealCapacitor.cc b/src/Circuit/models/ideal/IdealCapacitor.cc
index cc41c5b..810c752 100644
--- a/src/Circuit/models/ideal/IdealCapacitor.cc
+++ b/src/Circuit/models/ideal/IdealCapacitor.cc
@@ -8,13 +8,19 @@ IdealCapacitor::IdealCapacitor( NodeKeeper *nk, const char *name,
        node_ptr_vbot= this->AddCircuitNode(n2);
 
        //Parameter List
-       C               = 1.000000e+00;
+       this->C               = 1.0000000000000000e+00;
 }
 
 void IdealCapacitor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
 {
+   const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
+   const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
+   const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
 
 
@@ -26,14 +32,14 @@ void IdealCapacitor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Re
 
 void IdealCapacitor::assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, std::vector<std::pair<int, double> > &rhs)
 {
-   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
-   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
-   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
    const double iq = (C * (vtop - vbot));
    const double evbot = scl *(-iq);
@@ -75,7 +81,7 @@ bool IdealCapacitor::addParam(const std::string &str, double val)
     bool ret = false;
     if (str == "C")
     {
-        C = val;
+        this->C = val;
         ret = true;
     }
     return ret;
diff --git a/src/Circuit/models/ideal/IdealCapacitor.hh b/src/Circuit/models/ideal/IdealCapacitor.hh
index fe50a5f..e3548c9 100644
--- a/src/Circuit/models/ideal/IdealCapacitor.hh
+++ b/src/Circuit/models/ideal/IdealCapacitor.hh
@@ -29,5 +29,5 @@ class IdealCapacitor : public InstanceModel {
        //Internal Nodes
 
        //Parameter List
-       double C;             //"Capacitance"        1.000000e+00
+       double C;             //"Capacitance"        1.0000000000000000e+00
 };
diff --git a/src/Circuit/models/ideal/IdealCapacitor.out b/src/Circuit/models/ideal/IdealCapacitor.out
index 3af0513..3d951ea 100644
--- a/src/Circuit/models/ideal/IdealCapacitor.out
+++ b/src/Circuit/models/ideal/IdealCapacitor.out
@@ -2,8 +2,8 @@ External Node: vtop
 External Node: vbot
 Parameter Node: C "Capacitance" 1
 adding model: iq (C * (vtop - vbot))
-adding equation: evtop 0 ddt iq
-adding equation: evbot 0 ddt (-iq)
+adding equation: evtop 0.0 ddt iq
+adding equation: evbot 0.0 ddt (-iq)
 External Nodes:
 	vtop
 	vbot
@@ -12,32 +12,36 @@ Internal Nodes:
 
 Equations:
     evbot
-    dc  0
+    dc  0.0
     td  (-iq)
   Derivatives wrt External Nodes:
-  dc,vtop  0
+  dc,vtop  0.0
 Creating derivative d_iq_d_vtop
   td,vtop  (-d_iq_d_vtop)
-  dc,vbot  0
+  dc,vbot  0.0
 Creating derivative d_iq_d_vbot
   td,vbot  (-d_iq_d_vbot)
 
 Derivatives wrt Internal Nodes:
 
     evtop
-    dc  0
+    dc  0.0
     td  iq
   Derivatives wrt External Nodes:
-  dc,vtop  0
+  dc,vtop  0.0
 Reusing derivative d_iq_d_vtop
   td,vtop  d_iq_d_vtop
-  dc,vbot  0
+  dc,vbot  0.0
 Reusing derivative d_iq_d_vbot
   td,vbot  d_iq_d_vbot
 
 Derivatives wrt Internal Nodes:
 
 
+Reusing derivative d_iq_d_vtop
+Reusing derivative d_iq_d_vbot
+Reusing derivative d_iq_d_vtop
+Reusing derivative d_iq_d_vbot
 Models:
 	iq	(C * (vtop - vbot))
 	d_iq_d_vtop	C
diff --git a/src/Circuit/models/ideal/IdealInductor.cc b/src/Circuit/models/ideal/IdealInductor.cc
index ca941f7..f434d85 100644
--- a/src/Circuit/models/ideal/IdealInductor.cc
+++ b/src/Circuit/models/ideal/IdealInductor.cc
@@ -9,22 +9,22 @@ IdealInductor::IdealInductor( NodeKeeper *nk, const char *name,
        node_ptr_I= this->AddInternalNode("I");
 
        //Parameter List
-       L               = 1.000000e+00;
+       this->L               = 1.0000000000000000e+00;
 }
 
 void IdealInductor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
 {
-   const size_t node_num_I = node_ptr_I->getNumber();
-   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
+   const size_t node_num_I = node_ptr_I->getNumber();
 
-   const bool   is_gnd_node_I = node_ptr_I->isGROUND();
-   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
+   const bool   is_gnd_node_I = node_ptr_I->isGROUND();
 
-   const double I = (is_gnd_node_I) ? 0.0 : sol[node_num_I];
-   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
+   const double I = (is_gnd_node_I) ? 0.0 : sol[node_num_I];
 
    const double vdiff = (vbot - vtop);
    const double eI = vdiff;
@@ -39,12 +39,12 @@ void IdealInductor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Rea
       rhs.push_back(std::make_pair(node_num_vtop, evtop));
 
 
-   const double d_vdiff_d_vtop = (-1);
+   const double d_vdiff_d_vtop = (-1.0);
    const double eI_vtop = d_vdiff_d_vtop;
-   const double d_vdiff_d_vbot = 1;
+   const double d_vdiff_d_vbot = 1.0;
    const double eI_vbot = d_vdiff_d_vbot;
-   const double evbot_I = (-1);
-   const double evtop_I = 1;
+   const double evbot_I = (-1.0);
+   const double evtop_I = 1.0;
 
    if (!is_gnd_node_I)
    {
@@ -69,10 +69,16 @@ void IdealInductor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Rea
 
 void IdealInductor::assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, std::vector<std::pair<int, double> > &rhs)
 {
+   const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_I = node_ptr_I->getNumber();
 
+   const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_I = node_ptr_I->isGROUND();
 
+   const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double I = (is_gnd_node_I) ? 0.0 : sol[node_num_I];
 
    const double vl = (I * L);
@@ -100,7 +106,7 @@ bool IdealInductor::addParam(const std::string &str, double val)
     bool ret = false;
     if (str == "L")
     {
-        L = val;
+        this->L = val;
         ret = true;
     }
     return ret;
diff --git a/src/Circuit/models/ideal/IdealInductor.hh b/src/Circuit/models/ideal/IdealInductor.hh
index 4ec52a8..b5f4197 100644
--- a/src/Circuit/models/ideal/IdealInductor.hh
+++ b/src/Circuit/models/ideal/IdealInductor.hh
@@ -30,5 +30,5 @@ class IdealInductor : public InstanceModel {
        CircuitNodePtr node_ptr_I;
 
        //Parameter List
-       double L;             //"Inductance"         1.000000e+00
+       double L;             //"Inductance"         1.0000000000000000e+00
 };
diff --git a/src/Circuit/models/ideal/IdealInductor.out b/src/Circuit/models/ideal/IdealInductor.out
index 0cd72d9..6890a5d 100644
--- a/src/Circuit/models/ideal/IdealInductor.out
+++ b/src/Circuit/models/ideal/IdealInductor.out
@@ -4,8 +4,8 @@ Internal Node: I
 Parameter Node: L "Inductance" 1
 adding model: vl (L * I)
 adding model: vdiff (vbot - vtop)
-adding equation: evtop I ddt 0
-adding equation: evbot (-I) ddt 0
+adding equation: evtop I ddt 0.0
+adding equation: evbot (-I) ddt 0.0
 adding equation: eI vdiff ddt vl
 External Nodes:
 	vtop
@@ -21,48 +21,51 @@ Equations:
   Derivatives wrt External Nodes:
 Creating derivative d_vdiff_d_vtop
   dc,vtop  d_vdiff_d_vtop
-  td,vtop  0
+  td,vtop  0.0
 Creating derivative d_vdiff_d_vbot
   dc,vbot  d_vdiff_d_vbot
-  td,vbot  0
+  td,vbot  0.0
 
 Derivatives wrt Internal Nodes:
-  dc,I  0
+  dc,I  0.0
 Creating derivative d_vl_d_I
   td,I  d_vl_d_I
 
     evbot
     dc  (-I)
-    td  0
+    td  0.0
   Derivatives wrt External Nodes:
-  dc,vtop  0
-  td,vtop  0
-  dc,vbot  0
-  td,vbot  0
+  dc,vtop  0.0
+  td,vtop  0.0
+  dc,vbot  0.0
+  td,vbot  0.0
 
 Derivatives wrt Internal Nodes:
-  dc,I  (-1)
-  td,I  0
+  dc,I  (-1.0)
+  td,I  0.0
 
     evtop
     dc  I
-    td  0
+    td  0.0
   Derivatives wrt External Nodes:
-  dc,vtop  0
-  td,vtop  0
-  dc,vbot  0
-  td,vbot  0
+  dc,vtop  0.0
+  td,vtop  0.0
+  dc,vbot  0.0
+  td,vbot  0.0
 
 Derivatives wrt Internal Nodes:
-  dc,I  1
-  td,I  0
+  dc,I  1.0
+  td,I  0.0
 
 
+Reusing derivative d_vdiff_d_vtop
+Reusing derivative d_vdiff_d_vbot
+Reusing derivative d_vl_d_I
 Models:
 	vl	(I * L)
 	vdiff	(vbot - vtop)
-	d_vdiff_d_vtop	(-1)
-	d_vdiff_d_vbot	1
+	d_vdiff_d_vtop	(-1.0)
+	d_vdiff_d_vbot	1.0
 	d_vl_d_I	L
 
 Ref count (I * L) 1
diff --git a/src/Circuit/models/ideal/IdealResistor.cc b/src/Circuit/models/ideal/IdealResistor.cc
index 7316511..476ebd8 100644
--- a/src/Circuit/models/ideal/IdealResistor.cc
+++ b/src/Circuit/models/ideal/IdealResistor.cc
@@ -8,21 +8,21 @@ IdealResistor::IdealResistor( NodeKeeper *nk, const char *name,
        node_ptr_vbot= this->AddCircuitNode(n2);
 
        //Parameter List
-       R               = 1.000000e+00;
+       this->R               = 1.0000000000000000e+00;
 }
 
 void IdealResistor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> &mat, std::vector<std::pair<int, double> > &rhs)
 {
-   const size_t node_num_vbot = node_ptr_vbot->getNumber();
    const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
-   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
    const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
-   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
    const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
-   const double G = pow(R,(-1));
+   const double G = pow(R,(-1.0));
    const double ir = ((vtop - vbot) * G);
    const double evbot = (-ir);
    const double evtop = ir;
@@ -58,8 +58,14 @@ void IdealResistor::assembleDC_impl(const NodeKeeper::Solution &sol, dsMath::Rea
 
 void IdealResistor::assembleTran_impl(const double scl, const NodeKeeper::Solution &sol, dsMath::RealRowColValueVec<double> *mat, std::vector<std::pair<int, double> > &rhs)
 {
+   const size_t node_num_vtop = node_ptr_vtop->getNumber();
+   const size_t node_num_vbot = node_ptr_vbot->getNumber();
 
+   const bool   is_gnd_node_vtop = node_ptr_vtop->isGROUND();
+   const bool   is_gnd_node_vbot = node_ptr_vbot->isGROUND();
 
+   const double vtop = (is_gnd_node_vtop) ? 0.0 : sol[node_num_vtop];
+   const double vbot = (is_gnd_node_vbot) ? 0.0 : sol[node_num_vbot];
 
 
 
@@ -76,7 +82,7 @@ bool IdealResistor::addParam(const std::string &str, double val)
     bool ret = false;
     if (str == "R")
     {
-        R = val;
+        this->R = val;
         ret = true;
     }
     return ret;
diff --git a/src/Circuit/models/ideal/IdealResistor.hh b/src/Circuit/models/ideal/IdealResistor.hh
index 8555fee..a26b09e 100644
--- a/src/Circuit/models/ideal/IdealResistor.hh
+++ b/src/Circuit/models/ideal/IdealResistor.hh
@@ -29,5 +29,5 @@ class IdealResistor : public InstanceModel {
        //Internal Nodes
 
        //Parameter List
-       double R;             //"Resistance"         1.000000e+00
+       double R;             //"Resistance"         1.0000000000000000e+00
 };
diff --git a/src/Circuit/models/ideal/IdealResistor.out b/src/Circuit/models/ideal/IdealResistor.out
index 8e1599e..2637f99 100644
--- a/src/Circuit/models/ideal/IdealResistor.out
+++ b/src/Circuit/models/ideal/IdealResistor.out
@@ -1,10 +1,10 @@
 External Node: vtop
 External Node: vbot
 Parameter Node: R "Resistance" 1
-adding model: G (1 * pow(R,(-1)))
+adding model: G (1.0 * pow(R,(-1.0)))
 adding model: ir (G * (vtop - vbot))
-adding equation: evtop ir ddt 0
-adding equation: evbot (-ir) ddt 0
+adding equation: evtop ir ddt 0.0
+adding equation: evbot (-ir) ddt 0.0
 External Nodes:
 	vtop
 	vbot
@@ -14,38 +14,42 @@ Internal Nodes:
 Equations:
     evbot
     dc  (-ir)
-    td  0
+    td  0.0
   Derivatives wrt External Nodes:
 Creating derivative d_ir_d_vtop
   dc,vtop  (-d_ir_d_vtop)
-  td,vtop  0
+  td,vtop  0.0
 Creating derivative d_ir_d_vbot
   dc,vbot  (-d_ir_d_vbot)
-  td,vbot  0
+  td,vbot  0.0
 
 Derivatives wrt Internal Nodes:
 
     evtop
     dc  ir
-    td  0
+    td  0.0
   Derivatives wrt External Nodes:
 Reusing derivative d_ir_d_vtop
   dc,vtop  d_ir_d_vtop
-  td,vtop  0
+  td,vtop  0.0
 Reusing derivative d_ir_d_vbot
   dc,vbot  d_ir_d_vbot
-  td,vbot  0
+  td,vbot  0.0
 
 Derivatives wrt Internal Nodes:
 
 
+Reusing derivative d_ir_d_vtop
+Reusing derivative d_ir_d_vbot
+Reusing derivative d_ir_d_vtop
+Reusing derivative d_ir_d_vbot
 Models:
-	G	pow(R,(-1))
+	G	pow(R,(-1.0))
 	ir	((vtop - vbot) * G)
 	d_ir_d_vtop	G
 	d_ir_d_vbot	(-G)
 
-Ref count pow(R,(-1)) 1
+Ref count pow(R,(-1.0)) 1
 Ref count ((vtop - vbot) * G) 1
 Ref count (vtop - vbot) 1
 Reusing derivative d_ir_d_vtop
diff --git a/src/adiff/mcTest.cc b/src/adiff/mcTest.cc
index 8575014..f3c0394 100644
--- a/src/adiff/mcTest.cc
+++ b/src/adiff/mcTest.cc
@@ -642,9 +642,12 @@ out << "\n"
      std::ostringstream os;
      for (Plistit it = ParameterList.begin(); it != ParameterList.end(); ++it)
      {
+        // this has to remain in one line
+        std::string text = it->second.first;
+        std::replace_if(text.begin(), text.end(), [](char c) {return c == '\n' || c == '\r';}, ' ');
         os <<
 "       double " << std::setw(15) << std::left << parameterListName(it->first) +
-              ";" <<  "//" << std::setw(20) << it->second.first << " " << std::scientific << std::setprecision(16) << it->second.second << "\n";
+              ";" <<  "//" << std::setw(20) << text << " " << std::scientific << std::setprecision(16) << it->second.second << "\n";
 
      }
      out << os.str();
-- 
2.43.0


From fa1bf0fcaaf5771c01569aa07f0c5a8d9bb5b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:39 +0000
Subject: [PATCH 108/112] fix: constants which are not finite resulted in code
 which does not compile

---
 src/adiff/EquationObject.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index c1cd01c..7dd6a26 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -289,6 +289,15 @@ Constant::Constant(double x) : EquationObject(CONST_OBJ), dvalue(x)
 std::string Constant::createStringValue()
 {
     std::ostringstream os;
+    // as known to the compiler of the generated code
+    if (std::isnan(dvalue))
+    {
+      return "NAN";
+    }
+    else if (std::isinf(dvalue))
+    {
+      return (dvalue < 0.0) ? "(-HUGE_VAL)" : "HUGE_VAL";
+    }
     // integers keep all of their digits, and are not evaluated as type int
     if (dvalue != floor(dvalue) || fabs(dvalue) >= 1.0e6)
     {
-- 
2.43.0


From 5e16a269ffc283d1cdd7f6505e60438f07022596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:13 +0000
Subject: [PATCH 109/112] fix: the model compiler expanded powers whose
 exponents are only close to integers

---
 src/adiff/EquationObject.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/adiff/EquationObject.cc b/src/adiff/EquationObject.cc
index 7dd6a26..31ab496 100644
--- a/src/adiff/EquationObject.cc
+++ b/src/adiff/EquationObject.cc
@@ -1829,16 +1829,12 @@ EqObjPtr Pow::expand()
             dval = -dval;
         }
 
-        std::ostringstream os;
-        os << dval;
-        std::string tstr = os.str();
         // look for non floating point numbers
         // arbitrarily restrict exponents less than 100
         // warning magic number
-//      cout << "DEBUG tstr" << tstr << endl;
-        if ((dval < 100) && (tstr.find('.') == std::string::npos))
+        if ((dval < 100) && (dval == static_cast<int>(dval)))
         {
-            const int ex = atoi(tstr.c_str());
+            const int ex = static_cast<int>(dval);
             if (ex > 1)
             {
                 // assume already expanded above
-- 
2.43.0


From fbc18d9b05c25d373ef66c4f18208953904e85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 110/112] fix: evaluating if changed the value of its condition
 where it is used again

---
 src/AutoEquation/InterfaceModelExprEval.cc | 6 ++++--
 src/AutoEquation/ModelExprEval.cc          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index 8838d1c..b8ab78a 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -323,8 +323,10 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // the data of test may be shared with the cache, and is not to be modified
+    out = InterfaceModelExprData<DoubleType>(1.0);
+    out *= test;
+    out *= eval_function(values[1]);
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index e86c49e..2c4e039 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -299,8 +299,10 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateIfType(Eqo::EqObjPt
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // the data of test may be shared with the cache, and is not to be modified
+    out = ModelExprData<DoubleType>(1.0, data_ref);
+    out *= test;
+    out *= eval_function(values[1]);
   }
 
   return out;
-- 
2.43.0


From 30cad02cd0d812d62db7a93b33bfdee9d376531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 111/112] fix: a node was taken for part of an interface which
 has only the other region's node at its place

---
 src/Equation/InterfaceEquation.cc | 11 +++++++++--
 src/GeomModels/SurfaceArea.cc     | 19 ++++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/Equation/InterfaceEquation.cc b/src/Equation/InterfaceEquation.cc
index 484cc58..970b5e6 100644
--- a/src/Equation/InterfaceEquation.cc
+++ b/src/Equation/InterfaceEquation.cc
@@ -23,6 +23,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <string>
 #include <vector>
 #include <set>
+#include <algorithm>
 
 template <typename DoubleType>
 InterfaceEquation<DoubleType>::InterfaceEquation(const std::string &nm, const std::string &nm0, const std::string &nm1, InterfacePtr ip)
@@ -102,6 +103,11 @@ ConstNodeList_t RemoveContactNodesFromList(const Region &region, const ConstNode
   return ret;
 }
 
+bool HasNode(const ConstNodeList_t &nodes, ConstNodePtr node)
+{
+  return std::find(nodes.begin(), nodes.end(), node) != nodes.end();
+}
+
 //
 // If two interfaces with the same equation mapping share a coincident node, that node is removed
 //
@@ -135,7 +141,8 @@ ConstNodeList_t RemoveInterfaceNodesFromList(const Interface &interface, const R
         continue;
       }
 
-      if (region == *(ointerface->GetRegion0()))
+      // the interface may be at this coordinate for the node of the other region only
+      if ((region == *(ointerface->GetRegion0())) && HasNode(ointerface->GetNodes0(), node))
       {
         for (auto &equation_map : ointerface->GetInterfaceEquationList())
         {
@@ -146,7 +153,7 @@ ConstNodeList_t RemoveInterfaceNodesFromList(const Interface &interface, const R
           }
         }
       }
-      else if (region == *(ointerface->GetRegion1()))
+      if ((region == *(ointerface->GetRegion1())) && HasNode(ointerface->GetNodes1(), node))
       {
         for (auto &equation_map : ointerface->GetInterfaceEquationList())
         {
diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 0c1b9ff..2bb0664 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -15,6 +15,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Region.hh"
 #include "Device.hh"
 #include "dsAssert.hh"
+#include <algorithm>
 #include "NodeSolution.hh"
 #include "Contact.hh"
 #include "Interface.hh"
@@ -90,10 +91,22 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
         const size_t ci  = node.GetCoordinate().GetIndex();
         const size_t ni  = node.GetIndex();
 
-        if (cti.count(ci))
+        const auto iit = cti.find(ci);
+        if (iit != cti.end())
         {
-            const DoubleType length = 1.0;
-            nv[ni] += length;
+            for (const auto &ip : iit->second)
+            {
+                //// an interface of other regions may be at the same coordinate
+                const auto &nodes0 = ip->GetNodes0();
+                const auto &nodes1 = ip->GetNodes1();
+                if ((std::find(nodes0.begin(), nodes0.end(), &node) != nodes0.end()) ||
+                    (std::find(nodes1.begin(), nodes1.end(), &node) != nodes1.end()))
+                {
+                    const DoubleType length = 1.0;
+                    nv[ni] += length;
+                    break;
+                }
+            }
         }
         const auto cit = ctc.find(ci);
         if (cit != ctc.end())
-- 
2.43.0


From c0daa5e8931e4eb6887f0a35cd05c56913a1a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:18 +0000
Subject: [PATCH 112/112] fix: both sides of an interface within one region
 were taken for its first side

---
 src/AutoEquation/InterfaceModelExprEval.cc | 27 ++++++++--------------
 src/AutoEquation/InterfaceModelExprEval.hh |  3 ++-
 src/Equation/InterfaceEquation.cc          | 18 +++------------
 src/Equation/InterfaceEquation.hh          |  2 +-
 4 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index b8ab78a..26a8298 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -31,11 +31,12 @@ namespace IMEE {
 /// Need to support the derivatives later
 /// Create Interface model derivative type
 template <typename DoubleType>
-void InterfaceModelExprEval<DoubleType>::GetRegionAndName(const std::string &nm, std::string &name, const Region *&r)
+void InterfaceModelExprEval<DoubleType>::GetRegionAndName(const std::string &nm, std::string &name, const Region *&r, const Interface::ConstNodeList_t *&nodes)
 {
   name = nm;
 
   r = 0;
+  nodes = nullptr;
 
   std::string::size_type rpos = nm.size();
   if (rpos > 3)
@@ -47,11 +48,13 @@ void InterfaceModelExprEval<DoubleType>::GetRegionAndName(const std::string &nm,
   {
     name.erase(rpos);
     r = data_ref->GetRegion0();
+    nodes = &data_ref->GetNodes0();
   }
   else if (nm.rfind("@r1") == rpos)
   {
     name.erase(rpos);
     r = data_ref->GetRegion1();
+    nodes = &data_ref->GetNodes1();
   }
 }
 
@@ -89,7 +92,8 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateV
    */
   const Region *r;
   std::string name;
-  GetRegionAndName(nm, name, r);
+  const Interface::ConstNodeList_t *nodes;
+  GetRegionAndName(nm, name, r, nodes);
 
   if (r)
   {
@@ -170,8 +174,9 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
     InterfaceModelExprData<DoubleType> out;
     const Region *r = nullptr;
     std::string model;
+    const Interface::ConstNodeList_t *nodes = nullptr;
 
-    GetRegionAndName(m, model, r);
+    GetRegionAndName(m, model, r, nodes);
 
     if (ConstInterfaceNodeModelPtr inmp = data_ref->GetInterfaceNodeModel(m))
     {
@@ -192,21 +197,9 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
         //// The assumption here is that all node models cannot depend on interface models
         if (ConstNodeModelPtr nm = r->GetNodeModel(model))
         {
-            Interface::ConstNodeList_t nodevec;
-            if (r == data_ref->GetRegion0())
-            {
 // TODO: note this means that we are evaluating models on an interface, which may be skipped as non-ActiveNodes() from the interface equation.
-                nodevec = data_ref->GetNodes0();
-            }
-            else if (r == data_ref->GetRegion1())
-            {
-                nodevec = data_ref->GetNodes1();
-            }
-            else
-            {
-                dsAssert(0, "UNEXPECTED");
-            }
-
+            // both sides may be of the same region
+            const Interface::ConstNodeList_t &nodevec = *nodes;
 
             const NodeScalarList<DoubleType> &nvals = nm->GetScalarValues<DoubleType>();
 
diff --git a/src/AutoEquation/InterfaceModelExprEval.hh b/src/AutoEquation/InterfaceModelExprEval.hh
index 477bbed..235d9b5 100644
--- a/src/AutoEquation/InterfaceModelExprEval.hh
+++ b/src/AutoEquation/InterfaceModelExprEval.hh
@@ -20,6 +20,7 @@ class Region;
 typedef Region *RegionPtr;
 
 class Interface;
+class Node;
 
 namespace Eqo {
 class EquationObject;
@@ -53,7 +54,7 @@ class InterfaceModelExprEval {
         InterfaceModelExprData<DoubleType> EvaluateFunctionType(Eqo::EqObjPtr);
         InterfaceModelExprData<DoubleType> EvaluateInvalidType(Eqo::EqObjPtr);
 
-        void GetRegionAndName(const std::string &nm, std::string &name, const Region *&r);
+        void GetRegionAndName(const std::string &nm, std::string &name, const Region *&r, const std::vector<const Node *> *&nodes);
         InterfaceModelExprData<DoubleType> EvaluateInterfaceModelType(Eqo::EqObjPtr);
         ///  Handles math functions (log, pow, exp, . . .)
         InterfaceModelExprData<DoubleType> EvaluateExternalMath(const std::string &, const margv_t &);
diff --git a/src/Equation/InterfaceEquation.cc b/src/Equation/InterfaceEquation.cc
index 970b5e6..c266836 100644
--- a/src/Equation/InterfaceEquation.cc
+++ b/src/Equation/InterfaceEquation.cc
@@ -184,23 +184,11 @@ ConstNodeList_t RemoveInterfaceNodesFromList(const Interface &interface, const R
 ///// will skip this node
 ///// If an interface for this equation on this region already exists, we skip out on that
 template <typename DoubleType>
-ConstNodeList_t InterfaceEquation<DoubleType>::GetActiveNodesFromList(const Region &region, const ConstNodeList_t &inputnodes) const
+ConstNodeList_t InterfaceEquation<DoubleType>::GetActiveNodesFromList(const Region &region, const ConstNodeList_t &inputnodes, const std::string &eqname) const
 {
 
   const Interface &interface = GetInterface();
 
-
-  std::string eqname;
-
-  if (region == *(interface.GetRegion0()))
-  {
-    eqname = GetName0();
-  }
-  else if (region == *(interface.GetRegion1()))
-  {
-    eqname = GetName1();
-  }
-
   const auto &cnodes = RemoveContactNodesFromList(region, inputnodes, eqname);
 
   const auto &ret = RemoveInterfaceNodesFromList(interface, region, cnodes, eqname);
@@ -212,7 +200,7 @@ template <typename DoubleType>
 std::set<ConstNodePtr> InterfaceEquation<DoubleType>::GetActiveNodes0() const
 {
   const auto &inodes0 = GetInterface().GetNodes0();
-  const auto &onodes0 = GetActiveNodesFromList(*GetInterface().GetRegion0(), inodes0);
+  const auto &onodes0 = GetActiveNodesFromList(*GetInterface().GetRegion0(), inodes0, GetName0());
 
   std::set<ConstNodePtr> ret;
   for (auto onode : onodes0)
@@ -226,7 +214,7 @@ template <typename DoubleType>
 std::set<ConstNodePtr> InterfaceEquation<DoubleType>::GetActiveNodes1() const
 {
   const auto &inodes1 = GetInterface().GetNodes1();
-  const auto &onodes1 = GetActiveNodesFromList(*GetInterface().GetRegion1(), inodes1);
+  const auto &onodes1 = GetActiveNodesFromList(*GetInterface().GetRegion1(), inodes1, GetName1());
 
   std::set<ConstNodePtr> ret;
   for (auto onode : onodes1)
diff --git a/src/Equation/InterfaceEquation.hh b/src/Equation/InterfaceEquation.hh
index 13661e4..d605f08 100644
--- a/src/Equation/InterfaceEquation.hh
+++ b/src/Equation/InterfaceEquation.hh
@@ -82,7 +82,7 @@ class InterfaceEquation {
         virtual void Serialize(std::ostream &) const = 0;
         virtual void GetCommandOptions_Impl(std::map<std::string, ObjectHolder> &) const = 0;
 
-        ConstNodeList_t GetActiveNodesFromList(const Region &, const ConstNodeList_t &) const;
+        ConstNodeList_t GetActiveNodesFromList(const Region &, const ConstNodeList_t &, const std::string &/*equation*/) const;
 
 //// Permutation and additional equation
         void NodeVolumeType1Assemble(const std::string &, dsMath::RealRowColValueVec<DoubleType> &, dsMath::RHSEntryVec<DoubleType> &, PermutationMap &, dsMathEnum::WhatToLoad, const std::string &/*surface_area*/);
-- 
2.43.0

