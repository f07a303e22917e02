From bec8cf1d011f70fcbe344a016cc63736d9a724a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 01/25] fix: let a compound leaf be assigned from an expression

The assignment operator had a template parameter that can never be
deduced and named a member which does not exist, so no expression could
be assigned to e.g. a RigidTransformQd.
---
 .../wave/geometry/src/core/storage/CompoundLeafStorage.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
index 06c51ee..7545778 100644
--- a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
+++ b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
@@ -58,9 +58,9 @@ struct CompoundLeafStorage {
         : CompoundLeafStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assigns from another expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        this->storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
             .value();
         return *static_cast<Derived *>(this);
-- 
2.43.0


From d6fe046fe322a9a590254accd051f12b313f264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 02/25] fix: rotation() of an rvalue transform expression did
 not compile

---
 include/wave/geometry/src/geometry/base/TransformBase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/TransformBase.hpp b/include/wave/geometry/src/geometry/base/TransformBase.hpp
index 7424230..c025fe6 100644
--- a/include/wave/geometry/src/geometry/base/TransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/TransformBase.hpp
@@ -91,7 +91,8 @@ class TransformBase : public ExpressionBase<Derived> {
     }
 
     auto rotation() && {
-        return internal::memberAccess<RotationGetter>(std::move(*this).derived());
+        return internal::memberAccess<RotationGetter<Derived>>(
+          std::move(*this).derived());
     }
 
     /** Produce a random element */
-- 
2.43.0


From 6d73ef56e02148964357d5b945a61c35594e9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 03/25] fix: constructing a compact rigid transform from an
 Eigen RotationBase recursed forever

The constructor delegated to itself.
---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 40f15b6..01dbb0e 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -58,7 +58,7 @@ class CompactRigidTransform
     template <typename RDerived, typename TDerived>
     CompactRigidTransform(const Eigen::RotationBase<RDerived, 3> &q,
                           const Eigen::MatrixBase<TDerived> &t)
-        : CompactRigidTransform{q, t} {
+        : Storage{QuatType{q.derived()}, t.derived()} {
         EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE(TDerived, 3);
     };
 
-- 
2.43.0


From 5991cc215c6cfca84585677639535e3d4b0135da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 04/25] fix: wrong sign in the small-angle series of the
 rotation exponential map

---
 include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
index 6f271a4..3cb2edf 100644
--- a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
@@ -119,7 +119,7 @@ auto evalImpl(expr<ExpMap>, const RelativeRotation<ImplType> &rhs) {
         s = sa / angle;
         c = cos(angle / 2);
     } else {
-        s = Scalar{0.5} + angle2 / 48;
+        s = Scalar{0.5} - angle2 / 48;
         c = 1 - angle2 / 8;
     }
 
-- 
2.43.0


From e5aad2b4b91f3c42c62e4c37f785300d5e5fec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 05/25] fix: wrong limits in the small-angle branch of the
 twist exponential map

---
 include/wave/geometry/src/geometry/leaf/Twist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index d75999e..280067c 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -118,8 +118,8 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
     } else {
         // small theta2; use Taylor expansions
         const auto A = Scalar{1.0};
-        const auto B = Scalar{0.0};
-        const auto C = Scalar{0.0};
+        const auto B = Scalar{1.0} / Scalar{2.0};
+        const auto C = Scalar{1.0} / Scalar{6.0};
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
         const Mat3 V = Mat3::Identity() + B * cross + C * cross2;
-- 
2.43.0


From cc79de20fc5ff1dd124c459d59ccef462ed0b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 06/25] fix: Jacobian of the rotation logarithmic map was NaN
 at the identity

---
 include/wave/geometry/src/geometry/op/LogMap.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/geometry/op/LogMap.hpp b/include/wave/geometry/src/geometry/op/LogMap.hpp
index a4540b2..7d5a9c6 100644
--- a/include/wave/geometry/src/geometry/op/LogMap.hpp
+++ b/include/wave/geometry/src/geometry/op/LogMap.hpp
@@ -46,17 +46,18 @@ auto jacobianImpl(expr<LogMap>,
     using std::cos;
     using std::sin;
     const auto theta2 = phi.squaredNorm();
+    if (!(theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon())) {
+        // Small angle: use Taylor expansion, as the formula below divides zero by zero
+        return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
+               Scalar{1} / Scalar{12} * crossMatrix(phi) * crossMatrix(phi);
+    }
     const auto theta = sqrt(theta2);
     const auto A = sin(theta) / theta;
     const auto B = (Scalar{1} - cos(theta)) / theta2;
 
-    //        if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
     return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
            ((B - Scalar{0.5} * A) / (Scalar{1} - cos(theta))) * crossMatrix(phi) *
              crossMatrix(phi);
-    //        } else {
-    // @todo small input
-    //        }
 }
 
 }  // namespace internal
-- 
2.43.0


From 423fe0e09624ceff7bc2356494249c523af7317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 07/25] fix: Jacobians of the rigid transform exp and log maps
 were NaN at zero rotation

---
 .../src/geometry/base/RigidTransformBase.hpp      | 15 +++++++++------
 include/wave/geometry/src/geometry/leaf/Twist.hpp | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 395e37b..1907446 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -178,13 +178,16 @@ auto jacobianImpl(expr<LogMap>,
     const auto &u = val.derived().translation().value();
     const auto theta2 = omega.squaredNorm();
     const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    // Use Taylor expansions for small theta2, as the formulas divide zero by zero there
+    const bool large = theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon();
+    const Scalar a = large ? sin(theta) / theta : 1 - theta2 / 6;
+    const Scalar b = large ? (1 - cos(theta)) / theta2 : Scalar{0.5} - theta2 / 24;
+    const Scalar c = large ? (1 - a) / theta2 : Scalar{1} / 6 - theta2 / 120;
+    const Scalar w1 = large ? (a - 2 * b) / theta2 : Scalar{-1} / 12 + theta2 / 180;
+    const Scalar w2 = large ? (b - 3 * c) / theta2 : Scalar{-1} / 60 + theta2 / 1260;
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (c - b) * Mat3::Identity() + w1 * crossMatrix(omega) +
+                   w2 * omega * omega.transpose();
 
     // Calculate Eade's "B" term
     const Mat3 B = b * crossMatrix(u) +
diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index 280067c..816ccc9 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -149,13 +149,16 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
     const auto &u = rhs.derived().translation().value();
     const auto theta2 = omega.squaredNorm();
     const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    // Use Taylor expansions for small theta2, as the formulas divide zero by zero there
+    const bool large = theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon();
+    const Scalar a = large ? sin(theta) / theta : 1 - theta2 / 6;
+    const Scalar b = large ? (1 - cos(theta)) / theta2 : Scalar{0.5} - theta2 / 24;
+    const Scalar c = large ? (1 - a) / theta2 : Scalar{1} / 6 - theta2 / 120;
+    const Scalar w1 = large ? (a - 2 * b) / theta2 : Scalar{-1} / 12 + theta2 / 180;
+    const Scalar w2 = large ? (b - 3 * c) / theta2 : Scalar{-1} / 60 + theta2 / 1260;
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (c - b) * Mat3::Identity() + w1 * crossMatrix(omega) +
+                   w2 * omega * omega.transpose();
 
     // Calculate Eade's "B" term
     const Mat3 B = b * crossMatrix(u) +
-- 
2.43.0


From 0442ee2a3c71d545a220c5cfb62330d7971ce7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 08/25] fix: logarithmic map of a half turn returned zero or
 infinity

---
 .../wave/geometry/src/geometry/leaf/MatrixRotation.hpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
index 12b35c1..de421d7 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
@@ -77,7 +77,15 @@ auto evalImpl(expr<LogMap>, const MatrixRotation<ImplType> &rhs) ->
     // From http://ethaneade.com/lie.pdf
     using std::acos;
     using std::sin;
+    using std::sqrt;
     const auto &m = rhs.value();
+
+    if (m.trace() + Scalar{1} < sqrt(Eigen::NumTraits<Scalar>::epsilon())) {
+        // Near half a turn m - m^T vanishes: get the axis from the symmetric part of m
+        const Eigen::AngleAxis<Scalar> aa{Eigen::Matrix<Scalar, 3, 3>{m}};
+        return aa.angle() * aa.axis();
+    }
+
     const auto angle = acos((m.trace() - Scalar{1}) / Scalar{2});
 
     if (angle * angle > Eigen::NumTraits<Scalar>::epsilon()) {
-- 
2.43.0


From abd512ed6ac04916486985823c0243a20bee8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 09/25] fix: zero Jacobian for targets an expression does not
 contain

(R1 * R2).jacobian(p) and evalWithJacobians with such a target failed to
compile when no subexpression had the target's type.
---
 .../src/core/functions/JacobianEvaluator.hpp  | 21 ++++++++++++++
 .../core/functions/TypedJacobianEvaluator.hpp | 28 ++++++++++++++++---
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 1ea656c..a4524c4 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -247,6 +247,27 @@ struct JacobianEvaluator<
     }
 };
 
+/** Specialization for binary expression where neither side can contain target */
+template <typename Derived, typename Target>
+struct JacobianEvaluator<
+  Derived,
+  Target,
+  std::enable_if_t<
+    is_binary_expression<Derived>{} &&
+    !contains_same_type<typename traits<Derived>::LhsDerived, Target>::value &&
+    !contains_same_type<typename traits<Derived>::RhsDerived, Target>::value &&
+    !std::is_same<Derived, Target>{}>> {
+    using Jacobian = jacobian_t<Derived, Target>;
+
+    WAVE_STRONG_INLINE JacobianEvaluator(const Evaluator<Derived> &, const Target &) {}
+
+    /** @returns none ("zero") since no leaf of the expression matches
+     */
+    WAVE_STRONG_INLINE boost::optional<Jacobian> jacobian() const {
+        return boost::none;
+    }
+};
+
 
 /** Specialization for n-ary expression */
 template <typename Derived, typename Target>
diff --git a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
index 391aaf7..f51f95b 100644
--- a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
@@ -277,6 +277,28 @@ auto evaluateTypedJacobian(const ExpressionBase<Derived> & /*expr*/, const Targe
     return jacobian_t<Derived, TargetDerived>::Zero();
 }
 
+/** Evaluate a jacobian using an existing Evaluator tree
+ *
+ * The Jacobian w.r.t. a target the expression does not contain is zero.
+ */
+template <typename Derived,
+          typename Target,
+          std::enable_if_t<contains_same_type<Derived, Target>::value, int> = 0>
+WAVE_STRONG_INLINE auto evaluateOneTypedJacobian(const Evaluator<Derived> &v_eval,
+                                                 const Target &target)
+  -> jacobian_t<Derived, Target> {
+    return TypedJacobianEvaluator<Derived, Target>{v_eval, target}.jacobian();
+}
+
+template <typename Derived,
+          typename Target,
+          std::enable_if_t<!contains_same_type<Derived, Target>::value, int> = 0>
+WAVE_STRONG_INLINE auto evaluateOneTypedJacobian(const Evaluator<Derived> &,
+                                                 const Target &)
+  -> jacobian_t<Derived, Target> {
+    return jacobian_t<Derived, Target>::Zero();
+}
+
 /** Evaluate the result of an expression tree and any number of jacobians
  *
  * @return the value of the expression
@@ -293,11 +315,9 @@ WAVE_STRONG_INLINE auto evaluateWithTypedJacobians(const ExpressionBase<Derived>
     // Get the correct evaluator
     using OutputType = plain_output_t<Derived>;
     const auto &v_eval = prepareEvaluatorTo<OutputType>(expr.derived());
-    using ExprType = tmp::remove_cr_t<decltype(v_eval.expr)>;
 
-    return std::forward_as_tuple(
-      prepareOutput(v_eval),
-      internal::TypedJacobianEvaluator<ExprType, Targets>{v_eval, targets}.jacobian()...);
+    return std::forward_as_tuple(prepareOutput(v_eval),
+                                 evaluateOneTypedJacobian(v_eval, targets)...);
 }
 
 /** Evaluate one Jacobian of an expression, using forward-mode AD.
-- 
2.43.0


From d430c80cd917234bcbb470d0b2fb7fc5cf5b5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 10/25] fix: Jacobian rows of compound expressions when an
 earlier element lacks the target

---
 .../geometry/src/core/functions/JacobianEvaluator.hpp  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index a4524c4..86e813c 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -309,14 +309,16 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
             std::get<Is>(evaluator.children), target}...};
     }
 
-    template <size_t... Is>
-    inline Jacobian combineChildJacobians(std::index_sequence<Is...>) const {
+    // Is: indices in the filtered tuple of children; Rows: their indices in the expression
+    template <size_t... Is, size_t... Rows>
+    inline Jacobian combineChildJacobians(std::index_sequence<Is...>,
+                                          std::index_sequence<Rows...>) const {
         // Fill with zero first. @todo profile/optimize
         auto jac = Jacobian{};
         jac.setZero();
         int foreach[] = {
           (std::get<Is>(children).jacobian()
-             ? (jac.template rowsWrt<Is>() = *std::get<Is>(children).jacobian(), 0)
+             ? (jac.template rowsWrt<Rows>() = *std::get<Is>(children).jacobian(), 0)
              : 0)...};
         (void) foreach;
         return jac;
@@ -342,7 +344,7 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
         constexpr auto N = std::tuple_size<ChildJacEvalTuple>::value;
         if (N > 0) {
             using Indices = std::make_index_sequence<N>;
-            return this->combineChildJacobians(Indices{});
+            return this->combineChildJacobians(Indices{}, IndicesOfChildrenToCall{});
         } else {
             return boost::none;
         }
-- 
2.43.0


From ca2944a368783b3f8aca46816d74eb54e63d2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 11/25] fix: compounds of three or more elements sharing leaves
 did not compile

---
 include/wave/geometry/src/util/meta/type_list.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/wave/geometry/src/util/meta/type_list.hpp b/include/wave/geometry/src/util/meta/type_list.hpp
index 335717f..5d19611 100644
--- a/include/wave/geometry/src/util/meta/type_list.hpp
+++ b/include/wave/geometry/src/util/meta/type_list.hpp
@@ -236,15 +236,10 @@ struct concat_if_unique_many<U1, U2>
                          concat_if_unique<typename U1::type, typename U2::type>,
                          std::false_type> {};
 
-// More than two lists: fold over concat_if_unique or short-circuit if false
-// (like std::conjunction)
+// More than two lists: fold over the first two (false if any pair is not unique)
 template <typename U1, typename U2, class... Tail>
 struct concat_if_unique_many<U1, U2, Tail...>
-    : std::conditional_t<
-        bool(concat_if_unique<typename U1::type, typename U2::type>::value),
-        concat_if_unique_many<concat_if_unique<typename U1::type, typename U2::type>,
-                              Tail...>,
-        concat_if_unique<typename U1::type, typename U2::type>> {};
+    : concat_if_unique_many<concat_if_unique_many<U1, U2>, Tail...> {};
 
 
 /** Zip two parameter packs of equal length
-- 
2.43.0


From ab5699675d704cff3c708bef218e7e121ce5d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 12/25] fix: evaluators of compound elements were moved while
 referring to themselves

---
 include/wave/geometry/src/core/functions/Evaluator.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/Evaluator.hpp b/include/wave/geometry/src/core/functions/Evaluator.hpp
index 8fc582b..e102eae 100644
--- a/include/wave/geometry/src/core/functions/Evaluator.hpp
+++ b/include/wave/geometry/src/core/functions/Evaluator.hpp
@@ -116,10 +116,8 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
     template <size_t... Is>
     inline static ChildEvalTuple expandToChildEvalTuple(const Derived &nary,
                                                         std::index_sequence<Is...>) {
-        // Evaluator<...> is needed here to make gcc 5 happy
-        return ChildEvalTuple{
-          Evaluator<typename traits<Derived>::template ElementType<Is>>{
-            nary.template get<Is>()}...};
+        // Construct the evaluators in place: they may refer to themselves, so must not move
+        return ChildEvalTuple{nary.template get<Is>()...};
     }
 
     template <size_t... Is>
-- 
2.43.0


From 5533cd49091c301d3bce6646f56ddcbe655ede3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 13/25] fix: assigning an expression to a compound of leaves
 did not compile

---
 .../wave/geometry/src/core/storage/NaryStorage.hpp    | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8932d8a..9e7a052 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -52,12 +52,11 @@ struct NaryStorage {
     explicit NaryStorage(const ExpressionBase<OtherDerived> &rhs)
         : NaryStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
-    /** Assign from another n-ary expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
-          wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
-            .value();
+    /** Assign from another expression - enabled if we are a compound of leaves */
+    template <typename OtherDerived,
+              std::enable_if_t<helper<OtherDerived>::all_leaves(), bool> = true>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        *this = NaryStorage{rhs};
         return *static_cast<Derived *>(this);
     }
 
-- 
2.43.0


From dad96cca817141b408f3ac39c4d2de8fd573934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 14/25] fix: compounds of lazily evaluated elements did not
 compile

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 9e7a052..54bc1be 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -117,7 +117,8 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
 
  public:
     using PreparedType = ConvertedType &&;
-    using EvalType = rebind<typename traits<Primitives>::EvalType...>;
+    // Elements are evaluated into plain leaves, which the compound then stores
+    using EvalType = rebind<plain_eval_t<Primitives>...>;
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-- 
2.43.0


From bef0ba2ae992d9a8892efc4048269703915c4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 15/25] fix: Jacobians of compounds whose leaves have unique
 types did not compile

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 54bc1be..f7cff1a 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -122,8 +122,8 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-    using UniqueLeaves =
-      tmp::concat_if_unique_many<typename traits<Primitives>::UniqueLeaves...>;
+    // The typed evaluators do not handle n-ary expressions, so use the untyped ones
+    using UniqueLeaves = std::false_type;
     using ConvertTo = tmp::type_list<>;
     using Scalar = common_scalar_t<Primitives...>;
 
-- 
2.43.0


From 8885e14878b84e39c554bc4f1e5b5630efc1f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 16/25] fix: expressions with lazily evaluated values could not
 be made dynamic

---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index 2990d1c..a9fc5d6 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -58,7 +58,8 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
     auto dynEvaluate() const -> EvalType override {
         const auto &v_eval = this->constructEvaluator();
-        return v_eval();
+        // The expression may produce a lazy leaf
+        return EvalType{v_eval()};
     }
 
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
-- 
2.43.0


From a087a437f705756dcde9f3b32fd2c150c287e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 17/25] fix: Jacobians of static expressions containing proxies
 did not compile

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 921fbaf..5e3a4e3 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -225,6 +225,10 @@ struct traits<Proxy<Leaf>> {
     using ConvertTo = typename traits<Leaf>::ConvertTo;
 };
 
+// We don't know at compile time what a proxy points at: it may contain any target
+template <typename A, typename B>
+struct contains_same_type<A, B, enable_if_proxy_t<A>> : std::true_type {};
+
 // Store by value in expressions using the proxy, because proxies are rebindable
 template <typename Leaf>
 struct arg_selector<Proxy<Leaf> &> : arg_selector<Proxy<Leaf>> {};
-- 
2.43.0


From 433a4e40d658660596b82866c74aa7ee0104b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:08 +0000
Subject: [PATCH 18/25] fix: MatrixRigidTransform over an Eigen::Map could not
 be constructed

---
 .../wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
index eba4967..a9ef93f 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
@@ -71,7 +71,7 @@ class MatrixRigidTransform
     /** Construct from an Eigen 4x4 transformation matrix */
     template <typename MDerived, TICK_REQUIRES(internal::is_eigen_matrix<4, MDerived>{})>
     explicit MatrixRigidTransform(const Eigen::MatrixBase<MDerived> &m)
-        : Storage{typename Storage::init_storage{}, m} {
+        : Storage{typename Storage::init_storage{}, m.derived()} {
         EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE(MDerived, 4, 4);
     }
 
-- 
2.43.0


From 1a6c088aa0468b07f5ec0b2afd4e7b76bcc76a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 19/25] fix: MatrixMap could not be read through a const
 reference by operator[]

---
 include/wave/geometry/src/util/math/MatrixMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/util/math/MatrixMap.hpp b/include/wave/geometry/src/util/math/MatrixMap.hpp
index 2f79ddf..0a93cfa 100644
--- a/include/wave/geometry/src/util/math/MatrixMap.hpp
+++ b/include/wave/geometry/src/util/math/MatrixMap.hpp
@@ -65,7 +65,7 @@ class MatrixMap {
 
     /** Returns a const block representing the matrix for the given key */
     auto operator[](const Key &key) const {
-        const auto &v = this->index_map[key];
+        const auto &v = this->index_map.at(key);
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-- 
2.43.0


From 2328316b25bc9fff4f8832ed62938ac53d322c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 20/25] fix: DiagonalBlockMatrix::segmentWrt did not compile

---
 include/wave/geometry/src/core/storage/BlockMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/BlockMatrix.hpp b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
index 1ba0bd5..f27408a 100644
--- a/include/wave/geometry/src/core/storage/BlockMatrix.hpp
+++ b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
@@ -135,7 +135,7 @@ class DiagonalBlockMatrix
     template <int I>
     auto segmentWrt() noexcept {
         static_assert(I < LIndices::size(), "Index out of range");
-        return this->template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
+        return this->diagonal().template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
     }
 };
 
-- 
2.43.0


From 3332de6df0301061e241d5b01ce87e0809001a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 21/25] fix: covariances of temporary noise objects could not
 be read

---
 include/wave/geometry/src/estimation/Noise.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 3c55661..8f86cec 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -55,7 +55,7 @@ class FullNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
+    auto covariance() && -> MatrixType {
         return std::move(*this).cov_;
     }
 
@@ -63,7 +63,7 @@ class FullNoise {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
+    auto inverseSqrtCov() && -> MatrixType {
         return std::move(*this).inv_sqrt_cov_;
     }
 
@@ -119,7 +119,7 @@ class DiagonalNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
+    auto covariance() && -> MatrixType {
         return std::move(*this).cov_;
     }
 
@@ -127,7 +127,7 @@ class DiagonalNoise {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
+    auto inverseSqrtCov() && -> MatrixType {
         return std::move(*this).inv_sqrt_cov_;
     }
 
-- 
2.43.0


From 92e4bf71ad2ea261ef69dfbb9f10f14a08c86f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 22/25] fix: scaled Zero expressions read a matrix out of scope

---
 include/wave/geometry/src/geometry/leaf/Zero.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Zero.hpp b/include/wave/geometry/src/geometry/leaf/Zero.hpp
index ab1f46f..a95b657 100644
--- a/include/wave/geometry/src/geometry/leaf/Zero.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Zero.hpp
@@ -29,7 +29,9 @@ class Zero : public internal::base_tmpl_t<Leaf, Zero<Leaf>> {
     }
 
     // Satisfy the Leaf Expression concept
-    auto value() const -> ImplType {
+    // Returns a nullary expression, which (unlike a temporary matrix) can be stored by
+    // value in the lazy Eigen expressions built from it.
+    auto value() const {
         return ImplType::Zero();
     }
 };
-- 
2.43.0


From 7c75c1aaff42af4201df612caf682761bc41f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 23/25] fix: Jacobians wrt a vector acted on by an Identity did
 not compile

---
 .../geometry/src/geometry/leaf/Identity.hpp    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/Identity.hpp b/include/wave/geometry/src/geometry/leaf/Identity.hpp
index a48bfe8..88c3e0e 100644
--- a/include/wave/geometry/src/geometry/leaf/Identity.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Identity.hpp
@@ -102,6 +102,24 @@ decltype(auto) evalImpl(expr<Transform>,
     return rhs.derived();
 };
 
+/** Jacobian of rotation by an Identity, wrt the rotated vector */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Rotate>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
+/** Jacobian of transformation by an Identity, wrt the transformed point */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Transform>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
 template <typename Rhs>
 auto evalImpl(expr<LogMap>, const Identity<Rhs> &) {
     return Zero<typename traits<Rhs>::TangentType>{};
-- 
2.43.0


From 5dce244a764204ca956a959937305d5d49955761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:50 +0000
Subject: [PATCH 24/25] fix: subtracting a matrix from a CrossMatrix did not
 compile

---
 include/wave/geometry/src/util/math/CrossMatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wave/geometry/src/util/math/CrossMatrix.hpp b/include/wave/geometry/src/util/math/CrossMatrix.hpp
index 563a1a8..1365f54 100644
--- a/include/wave/geometry/src/util/math/CrossMatrix.hpp
+++ b/include/wave/geometry/src/util/math/CrossMatrix.hpp
@@ -48,6 +48,9 @@ class CrossMatrix : public Eigen::Matrix<typename VecType::Scalar, 3, 3> {
                        .finished()},
           vec{vec} {}
 
+    // Keep binary operator- visible beside the unary one declared below
+    using MatrixType::operator-;
+
     using NegativeReturnType = CrossMatrix<typename VecType::NegativeReturnType>;
 
     EIGEN_DEVICE_FUNC
-- 
2.43.0


From 012c7579155fff2a25dc2042608e8be02d62d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:06 +0000
Subject: [PATCH 25/25] fix: Jacobians of proxies wrt leaves of another
 dimension did not compile

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 5e3a4e3..0925467 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -150,7 +150,7 @@ struct JacobianEvaluator<
     WAVE_STRONG_INLINE boost::optional<jacobian_t<Derived, Target>> jacobian() const {
         // Check if Jacobian is wrt this Proxy
         if (isSame(this->v_eval.expr, this->target_ptr)) {
-            return identity_t<Derived>{}.eval();
+            return jacobian_t<Derived, Target>{jacobian_t<Derived, Target>::Identity()};
         }
         // Otherwise, dynamically get the Jacobian of the derived expression and convert
         // to the expected optional-fixed-size return type
-- 
2.43.0

