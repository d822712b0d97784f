From 04975f47450acb7551152c151f6b310dc25c820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 01/29] fix: put forward-mode Jacobian of a compound's child in
 that child's rows

The tuple of child evaluators is filtered to the children which contain the
target, but the filtered position was used as the row block.
---
 .../geometry/src/core/functions/JacobianEvaluator.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 1ea656c..9b41066 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -288,14 +288,17 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
             std::get<Is>(evaluator.children), target}...};
     }
 
-    template <size_t... Is>
-    inline Jacobian combineChildJacobians(std::index_sequence<Is...>) const {
+    // Is are the positions in the (filtered) tuple of child evaluators; Rows are the
+    // positions of the same children among all elements of the compound
+    template <size_t... Is, size_t... Rows>
+    inline Jacobian combineChildJacobians(std::index_sequence<Is...>,
+                                          std::index_sequence<Rows...>) const {
         // Fill with zero first. @todo profile/optimize
         auto jac = Jacobian{};
         jac.setZero();
         int foreach[] = {
           (std::get<Is>(children).jacobian()
-             ? (jac.template rowsWrt<Is>() = *std::get<Is>(children).jacobian(), 0)
+             ? (jac.template rowsWrt<Rows>() = *std::get<Is>(children).jacobian(), 0)
              : 0)...};
         (void) foreach;
         return jac;
@@ -321,7 +324,7 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
         constexpr auto N = std::tuple_size<ChildJacEvalTuple>::value;
         if (N > 0) {
             using Indices = std::make_index_sequence<N>;
-            return this->combineChildJacobians(Indices{});
+            return this->combineChildJacobians(Indices{}, IndicesOfChildrenToCall{});
         } else {
             return boost::none;
         }
-- 
2.43.0


From dcb52e96c164c048e5cd185661cf10059c6c503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:55 +0000
Subject: [PATCH 02/29] fix: constructor of CompactRigidTransform from Eigen
 rotation called itself

---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 40f15b6..01dbb0e 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -58,7 +58,7 @@ class CompactRigidTransform
     template <typename RDerived, typename TDerived>
     CompactRigidTransform(const Eigen::RotationBase<RDerived, 3> &q,
                           const Eigen::MatrixBase<TDerived> &t)
-        : CompactRigidTransform{q, t} {
+        : Storage{QuatType{q.derived()}, t.derived()} {
         EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE(TDerived, 3);
     };
 
-- 
2.43.0


From 29f533b5167c24f66f5f01baf8b969aeae29472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 03/29] fix: Jacobian of rotation log map was not finite or
 accurate for small rotations

---
 .../wave/geometry/src/geometry/op/LogMap.hpp  | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/wave/geometry/src/geometry/op/LogMap.hpp b/include/wave/geometry/src/geometry/op/LogMap.hpp
index a4540b2..8db2dfb 100644
--- a/include/wave/geometry/src/geometry/op/LogMap.hpp
+++ b/include/wave/geometry/src/geometry/op/LogMap.hpp
@@ -43,20 +43,22 @@ auto jacobianImpl(expr<LogMap>,
     using Jacobian = jacobian_t<RelativeRotation<Val>, Rhs>;
     const auto &phi = val.value();
     // From http://ethaneade.org/exp_diff.pdf
-    using std::cos;
     using std::sin;
+    using std::sqrt;
     const auto theta2 = phi.squaredNorm();
     const auto theta = sqrt(theta2);
-    const auto A = sin(theta) / theta;
-    const auto B = (Scalar{1} - cos(theta)) / theta2;
+    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        // 1 - cos(theta) by way of half angle, to keep precision for small angles
+        const auto vers = Scalar{2} * sin(theta / 2) * sin(theta / 2);
+        const auto A = sin(theta) / theta;
+        const auto B = vers / theta2;
 
-    //        if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
-    return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
-           ((B - Scalar{0.5} * A) / (Scalar{1} - cos(theta))) * crossMatrix(phi) *
-             crossMatrix(phi);
-    //        } else {
-    // @todo small input
-    //        }
+        return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
+               ((B - Scalar{0.5} * A) / vers) * crossMatrix(phi) * crossMatrix(phi);
+    } else {
+        // small theta2; use first-order approximation
+        return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi);
+    }
 }
 
 }  // namespace internal
-- 
2.43.0


From e0e83dcec451330cc55cbcf83964e771f5917b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 04/29] fix: log map of rotation matrix was wrong for rotations
 close to pi

---
 .../src/geometry/leaf/MatrixRotation.hpp        | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
index 12b35c1..dbdf3f4 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
@@ -74,18 +74,11 @@ auto evalImpl(expr<LogMap>, const MatrixRotation<ImplType> &rhs) ->
   typename traits<MatrixRotation<ImplType>>::TangentType {
     using Scalar = scalar_t<MatrixRotation<ImplType>>;
 
-    // From http://ethaneade.com/lie.pdf
-    using std::acos;
-    using std::sin;
-    const auto &m = rhs.value();
-    const auto angle = acos((m.trace() - Scalar{1}) / Scalar{2});
-
-    if (angle * angle > Eigen::NumTraits<Scalar>::epsilon()) {
-        return uncrossMatrix(angle / (Scalar{2} * sin(angle)) * (m - m.transpose()));
-    } else {
-        // Very small angle
-        return uncrossMatrix(Scalar{0.5} * (m - m.transpose()));
-    }
+    // Use Eigen's implementation, which finds the angle and axis by way of a quaternion.
+    // Unlike a formula using only the trace and skew-symmetric part of the matrix, it is
+    // accurate for all angles, including those close to pi.
+    const Eigen::AngleAxis<Scalar> aa{rhs.value()};
+    return Eigen::Matrix<Scalar, 3, 1>{aa.angle() * aa.axis()};
 }
 
 /** Implements composition of rotation matrices */
-- 
2.43.0


From bf765ace04e8f1d07df3daec3b79ef23bd0372d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 05/29] fix: log map of rigid transform lost precision for
 small rotations

---
 .../wave/geometry/src/geometry/base/RigidTransformBase.hpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 395e37b..0bbf394 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -136,7 +136,9 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
     const auto theta = std::sqrt(theta2);
     if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
         const auto A = std::sin(theta) / theta;
-        const auto B = (1 - std::cos(theta)) / theta2;
+        // 1 - cos(theta) by way of half angle, to keep precision for small angles
+        const auto vers = 2 * std::sin(theta / 2) * std::sin(theta / 2);
+        const auto B = vers / theta2;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
 
-- 
2.43.0


From 76e0a161fbbb15027d84eb24e1b6b3093d237577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 06/29] fix: Jacobians of SE(3) exp and log maps were not
 finite or accurate for small rotations

---
 .../src/geometry/base/RigidTransformBase.hpp  | 31 +++++++++++--------
 .../wave/geometry/src/geometry/leaf/Twist.hpp | 31 +++++++++++--------
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 0bbf394..765b334 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -170,8 +170,8 @@ auto jacobianImpl(expr<LogMap>,
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
 
-    using std::cos;
     using std::sin;
+    using std::sqrt;
     // First get Jacobian of logmap of rotation part only
     const auto &Drot =
       jacobianImpl(expr<LogMap>{}, val.derived().rotation(), rhs.derived().rotation());
@@ -180,18 +180,23 @@ auto jacobianImpl(expr<LogMap>,
     const auto &u = val.derived().translation().value();
     const auto theta2 = omega.squaredNorm();
     const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
-    // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
-
-    // Calculate Eade's "B" term
-    const Mat3 B = b * crossMatrix(u) +
-                   c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
-
+    // Small theta2: limit of Eade's "B" term
+    Mat3 B = crossMatrix(u) / 2;
+    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        // 1 - cos(theta) by way of half angle, to keep precision for small angles
+        const auto vers = 2 * sin(theta / 2) * sin(theta / 2);
+        const auto a = sin(theta) / theta;
+        const auto b = vers / theta2;
+        const auto c = (1 - a) / theta2;
+        // Calculate Eade's "W" term
+        const Mat3 W = (c - b) * Mat3::Identity() +
+                       (a - 2 * b) / theta2 * crossMatrix(omega) +
+                       (b - 3 * c) / theta2 * omega * omega.transpose();
+
+        // Calculate Eade's "B" term
+        B = b * crossMatrix(u) + c * (omega * u.transpose() + u * omega.transpose()) +
+            omega.dot(u) * W;
+    }
 
     Eigen::Matrix<Scalar, 6, 6> out{};
     out.template topLeftCorner<3, 3>() = Drot;                 // R wrt R
diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index d75999e..e43c734 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -139,8 +139,8 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
 
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
-    using std::cos;
     using std::sin;
+    using std::sqrt;
     // First get Jacobian of expmap of rotation part only
     const auto &Drot = jacobianImpl(
       expr<ExpMap>{}, val.derived().rotationBlock(), rhs.derived().rotation());
@@ -149,18 +149,23 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
     const auto &u = rhs.derived().translation().value();
     const auto theta2 = omega.squaredNorm();
     const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
-    // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
-
-    // Calculate Eade's "B" term
-    const Mat3 B = b * crossMatrix(u) +
-                   c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
-
+    // Small theta2: limit of Eade's "B" term
+    Mat3 B = crossMatrix(u) / 2;
+    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        // 1 - cos(theta) by way of half angle, to keep precision for small angles
+        const auto vers = 2 * sin(theta / 2) * sin(theta / 2);
+        const auto a = sin(theta) / theta;
+        const auto b = vers / theta2;
+        const auto c = (1 - a) / theta2;
+        // Calculate Eade's "W" term
+        const Mat3 W = (c - b) * Mat3::Identity() +
+                       (a - 2 * b) / theta2 * crossMatrix(omega) +
+                       (b - 3 * c) / theta2 * omega * omega.transpose();
+
+        // Calculate Eade's "B" term
+        B = b * crossMatrix(u) + c * (omega * u.transpose() + u * omega.transpose()) +
+            omega.dot(u) * W;
+    }
 
     BlockMatrix<Val, Rhs> out{};
     out.template blockWrt<Val::Rotation, Rhs::Rotation>() = Drot;
-- 
2.43.0


From 9c67e34fe38e55ffd720ca172cc50014cd1652b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 07/29] fix: transform accepted a vector which does not start
 at the transform's right frame

---
 include/wave/geometry/src/geometry/op/Transform.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wave/geometry/src/geometry/op/Transform.hpp b/include/wave/geometry/src/geometry/op/Transform.hpp
index 46758f3..fa7f7e2 100644
--- a/include/wave/geometry/src/geometry/op/Transform.hpp
+++ b/include/wave/geometry/src/geometry/op/Transform.hpp
@@ -21,6 +21,9 @@ struct Transform : internal::base_tmpl_t<Rhs, Transform<Lhs, Rhs>>,
 
     static_assert(std::is_same<RightFrameOf<Lhs>, LeftFrameOf<Rhs>>(),
                   "Mismatching frames");
+    // The transformed vector must start at the origin of our right frame
+    static_assert(std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>(),
+                  "Mismatching frames");
 };
 
 namespace internal {
-- 
2.43.0


From 5061a755fd6a316e9351b616101949a9dc84fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 08/29] fix: rotation() of a temporary transform expression did
 not compile

---
 include/wave/geometry/src/geometry/base/TransformBase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/TransformBase.hpp b/include/wave/geometry/src/geometry/base/TransformBase.hpp
index 7424230..c025fe6 100644
--- a/include/wave/geometry/src/geometry/base/TransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/TransformBase.hpp
@@ -91,7 +91,8 @@ class TransformBase : public ExpressionBase<Derived> {
     }
 
     auto rotation() && {
-        return internal::memberAccess<RotationGetter>(std::move(*this).derived());
+        return internal::memberAccess<RotationGetter<Derived>>(
+          std::move(*this).derived());
     }
 
     /** Produce a random element */
-- 
2.43.0


From 82f83b7244e389194f4160d9f515d2ceea253ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 09/29] fix: compound leaves could not be assigned from an
 expression

---
 .../geometry/src/core/storage/CompoundLeafStorage.hpp |  6 +++---
 .../wave/geometry/src/core/storage/NaryStorage.hpp    | 11 +++++------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
index 06c51ee..fa0d634 100644
--- a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
+++ b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
@@ -58,9 +58,9 @@ struct CompoundLeafStorage {
         : CompoundLeafStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assigns from another expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
             .value();
         return *static_cast<Derived *>(this);
diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8932d8a..77d9c87 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -52,12 +52,11 @@ struct NaryStorage {
     explicit NaryStorage(const ExpressionBase<OtherDerived> &rhs)
         : NaryStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
-    /** Assign from another n-ary expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
-          wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
-            .value();
+    /** Assign from another n-ary expression - enabled if we are a compound of leaves */
+    template <typename OtherDerived,
+              std::enable_if_t<helper<OtherDerived>::all_leaves(), bool> = true>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        storage_ = std::move(wave::internal::evaluateTo<Derived>(rhs.derived()).storage_);
         return *static_cast<Derived *>(this);
     }
 
-- 
2.43.0


From 5596f0c6b84e04dfd6afd6f8b6be5ae1ad1f3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 10/29] fix: matrix rigid transform could not refer to mapped
 memory

---
 .../wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
index eba4967..a9ef93f 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
@@ -71,7 +71,7 @@ class MatrixRigidTransform
     /** Construct from an Eigen 4x4 transformation matrix */
     template <typename MDerived, TICK_REQUIRES(internal::is_eigen_matrix<4, MDerived>{})>
     explicit MatrixRigidTransform(const Eigen::MatrixBase<MDerived> &m)
-        : Storage{typename Storage::init_storage{}, m} {
+        : Storage{typename Storage::init_storage{}, m.derived()} {
         EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE(MDerived, 4, 4);
     }
 
-- 
2.43.0


From f126c6e16e9a18d4a79186c4f1ea5b2b560f7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 11/29] fix: scaling the symbolic zero read a destroyed
 temporary

Also keep the frames of the blocks of a symbolic zero twist.
---
 .../wave/geometry/src/geometry/leaf/Zero.hpp  | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Zero.hpp b/include/wave/geometry/src/geometry/leaf/Zero.hpp
index ab1f46f..e5e3c29 100644
--- a/include/wave/geometry/src/geometry/leaf/Zero.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Zero.hpp
@@ -17,15 +17,22 @@ class Zero : public internal::base_tmpl_t<Leaf, Zero<Leaf>> {
     using Scalar = typename Eigen::internal::traits<ImplType>::Scalar;
     using Vec3 = Eigen::Matrix<Scalar, 3, 1>;
 
+    // Blocks of a framed twist have the frames of the twist
+    template <typename Block>
+    using ZeroBlock = Zero<
+      typename internal::add_frames<LeftFrameOf<Leaf>,
+                                    MiddleFrameOf<Leaf>,
+                                    RightFrameOf<Leaf>>::template to<Block>>;
+
  public:
     template <TICK_REQUIRES(internal::is_derived_twist<Leaf>{})>
-    Zero<RelativeRotation<Vec3>> rotation() const {
-        return Zero<RelativeRotation<Vec3>>{};
+    auto rotation() const {
+        return ZeroBlock<RelativeRotation<Vec3>>{};
     }
 
     template <TICK_REQUIRES(internal::is_derived_twist<Leaf>{})>
-    Zero<Translation<Vec3>> translation() const {
-        return Zero<Translation<Vec3>>{};
+    auto translation() const {
+        return ZeroBlock<Translation<Vec3>>{};
     }
 
     // Satisfy the Leaf Expression concept
@@ -85,6 +92,21 @@ decltype(auto) evalImpl(expr<Minus>, const Zero<Rhs> &rhs) {
     return rhs;
 }
 
+template <typename Lhs, typename Rhs>
+decltype(auto) evalImpl(expr<Scale>, const ScalarBase<Lhs> &, const Zero<Rhs> &rhs) {
+    return rhs;
+}
+
+template <typename Lhs, typename Rhs>
+decltype(auto) evalImpl(expr<ScaleR>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
+    return lhs;
+}
+
+template <typename Lhs, typename Rhs>
+decltype(auto) evalImpl(expr<ScaleDiv>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
+    return lhs;
+}
+
 template <typename Rhs>
 auto evalImpl(expr<ExpMap>, const Zero<Rhs> &) {
     return Identity<typename traits<Rhs>::ExpType>{};
-- 
2.43.0


From c5ca3700353ef31a40457ab5e2b44306ee9fddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 12/29] fix: expressions with symbolic identity lost frames or
 could not be differentiated

---
 .../geometry/src/geometry/leaf/Identity.hpp   | 52 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Identity.hpp b/include/wave/geometry/src/geometry/leaf/Identity.hpp
index a48bfe8..bf30130 100644
--- a/include/wave/geometry/src/geometry/leaf/Identity.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Identity.hpp
@@ -14,11 +14,19 @@ template <typename Leaf>
 class Identity : public internal::base_tmpl_t<Leaf, Identity<Leaf>> {
     TICK_TRAIT_CHECK(internal::is_leaf_expression<Leaf>);
     using Scalar = internal::scalar_t<Leaf>;
+    using RotationLeaf =
+      typename internal::add_frames<LeftFrameOf<Leaf>, RightFrameOf<Leaf>>::template to<
+        QuaternionRotation<Eigen::Quaternion<Scalar>>>;
+    using TranslationLeaf =
+      typename internal::add_frames<LeftFrameOf<Leaf>,
+                                    LeftFrameOf<Leaf>,
+                                    RightFrameOf<Leaf>>::template to<
+        Translation<Eigen::Matrix<Scalar, 3, 1>>>;
 
  public:
     /** Returns an identity translation expression */
     auto translation() const {
-        return Zero<Translation<Eigen::Matrix<Scalar, 3, 1>>>{};
+        return Zero<TranslationLeaf>{};
     }
 
     /** Returns an identity rotation expression
@@ -27,7 +35,16 @@ class Identity : public internal::base_tmpl_t<Leaf, Identity<Leaf>> {
      * type based on our Leaf, but Identity<Quaternion> is easily converted to others.
      */
     auto rotation() const {
-        return Identity<QuaternionRotation<Eigen::Quaternion<Scalar>>>{};
+        return Identity<RotationLeaf>{};
+    }
+
+    // Fit TransformBase interface
+    auto translationBlock() const {
+        return this->translation();
+    }
+
+    auto rotationBlock() const {
+        return this->rotation();
     }
 
     // Satisfy the Leaf Expression concept
@@ -107,6 +124,37 @@ auto evalImpl(expr<LogMap>, const Identity<Rhs> &) {
     return Zero<typename traits<Rhs>::TangentType>{};
 };
 
+/** Jacobian of inverse of an identity rotation */
+template <typename Val, typename Rhs>
+auto jacobianImpl(expr<Inverse>, const RotationBase<Val> &, const Identity<Rhs> &)
+  -> jacobian_t<Rhs, Rhs> {
+    return -jacobian_t<Rhs, Rhs>::Identity();
+}
+
+/** Jacobian of log map of an identity rotation */
+template <typename Val, typename Rhs>
+auto jacobianImpl(expr<LogMap>, const RelativeRotationBase<Val> &, const Identity<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
+/** Jacobian of rotation of a zero vector by an identity element wrt the rotation */
+template <typename Val, typename Lhs, typename Rhs>
+auto leftJacobianImpl(expr<Rotate>,
+                      const Zero<Val> &,
+                      const Identity<Lhs> &,
+                      const Zero<Rhs> &) -> jacobian_t<Val, Lhs> {
+    return jacobian_t<Val, Lhs>::Zero();
+}
+
+/** Jacobian of rotation by an identity element wrt the vector */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Rotate>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
 }  // namespace internal
 }  // namespace wave
 
-- 
2.43.0


From 34d39c82e42caa166a8919909d1b1ede19c637e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 13/29] fix: evalWithJacobians did not accept a variable which
 does not occur

---
 .../src/core/functions/TypedJacobianEvaluator.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
index 391aaf7..045c45d 100644
--- a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
@@ -38,6 +38,21 @@ struct TypedJacobianEvaluator<Derived, Derived> {
     const Evaluator<Derived> &evaluator;
 };
 
+/** Specialization for any expression which does not contain target */
+template <typename Derived, typename Target>
+struct TypedJacobianEvaluator<
+  Derived,
+  Target,
+  std::enable_if_t<!contains_same_type<Derived, Target>{} &&
+                   !std::is_same<Derived, Target>{}>> {
+    WAVE_STRONG_INLINE TypedJacobianEvaluator(const Evaluator<Derived> &, const Target &) {
+    }
+
+    auto jacobian() const -> jacobian_t<Derived, Target> {
+        return jacobian_t<Derived, Target>::Zero();
+    }
+};
+
 /** Specialization for unary expression that contains target */
 template <typename Derived, typename Target>
 struct TypedJacobianEvaluator<
-- 
2.43.0


From 51fb872714cc171615a732d71e295bc73951b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 14/29] fix: normalized vector lost its frames

---
 include/wave/geometry/src/util/macros.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/util/macros.hpp b/include/wave/geometry/src/util/macros.hpp
index 9c1bad9..7689649 100644
--- a/include/wave/geometry/src/util/macros.hpp
+++ b/include/wave/geometry/src/util/macros.hpp
@@ -157,7 +157,11 @@
     };                                                          \
     namespace internal {                                        \
     template <typename Rhs>                                     \
-    struct traits<Name<Rhs>> : unary_traits_base<Name<Rhs>> {}; \
+    struct traits<Name<Rhs>> : unary_traits_base<Name<Rhs>> {   \
+        using OutputFunctor = WrapWithFrames<LeftFrameOf<Rhs>,  \
+                                             MiddleFrameOf<Rhs>, \
+                                             RightFrameOf<Rhs>>; \
+    };                                                          \
     }  // namespace internal
 
 /** Generate an empty binary expression and traits */
-- 
2.43.0


From 73b6d060bdd41f8871fa3229257f82f45fdd22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 15/29] fix: value of a scaled symbolic zero could not be
 differentiated

---
 include/wave/geometry/src/geometry/leaf/Zero.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Zero.hpp b/include/wave/geometry/src/geometry/leaf/Zero.hpp
index e5e3c29..5fe1a17 100644
--- a/include/wave/geometry/src/geometry/leaf/Zero.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Zero.hpp
@@ -92,19 +92,20 @@ decltype(auto) evalImpl(expr<Minus>, const Zero<Rhs> &rhs) {
     return rhs;
 }
 
+// Scaling returns a plain vector, as it may be the value of an expression with variables
 template <typename Lhs, typename Rhs>
-decltype(auto) evalImpl(expr<Scale>, const ScalarBase<Lhs> &, const Zero<Rhs> &rhs) {
-    return rhs;
+auto evalImpl(expr<Scale>, const ScalarBase<Lhs> &, const Zero<Rhs> &rhs) {
+    return plain_eval_t<Rhs>{rhs.value()};
 }
 
 template <typename Lhs, typename Rhs>
-decltype(auto) evalImpl(expr<ScaleR>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
-    return lhs;
+auto evalImpl(expr<ScaleR>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
+    return plain_eval_t<Lhs>{lhs.value()};
 }
 
 template <typename Lhs, typename Rhs>
-decltype(auto) evalImpl(expr<ScaleDiv>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
-    return lhs;
+auto evalImpl(expr<ScaleDiv>, const Zero<Lhs> &lhs, const ScalarBase<Rhs> &) {
+    return plain_eval_t<Lhs>{lhs.value()};
 }
 
 template <typename Rhs>
-- 
2.43.0


From 484e5d590ccee96a33bcb6402cbeb382bfd0070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 16/29] fix: allow assigning a part of one transform to the
 same part of another

---
 include/wave/geometry/src/core/op/MemberAccess.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/wave/geometry/src/core/op/MemberAccess.hpp b/include/wave/geometry/src/core/op/MemberAccess.hpp
index 8775d49..8cf0269 100644
--- a/include/wave/geometry/src/core/op/MemberAccess.hpp
+++ b/include/wave/geometry/src/core/op/MemberAccess.hpp
@@ -41,6 +41,16 @@ struct MemberAccess final : internal::aux_base_tmpl_t<Aux, Rhs, MemberAccess<Aux
  public:
     using Storage::Storage;
 
+    MemberAccess(const MemberAccess &) = default;
+    MemberAccess(MemberAccess &&) = default;
+
+    /** Assigns to the subobject from an expression of this same type, for example
+     * `a.translation() = b.translation()`. The storage itself is never reassigned. */
+    MemberAccess &operator=(const MemberAccess &other) && {
+        using OtherBase = typename Base::template BaseTmpl<MemberAccess>;
+        return std::move(*this) = static_cast<const OtherBase &>(other);
+    }
+
     /** Assigns to the subobject from an expression of the matching space.
      *
      * Enabled if Rhs is detected to be assignable, but might fail somewhere in Eigen if
-- 
2.43.0


From d67a86259deef30061c988f2839bbc7d1b4bbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 17/29] fix: proxies of products of proxies could not be made

The reverse adjoint has dynamic size already there, and the call to
dynReverse() was ambiguous.
---
 include/wave/geometry/src/dynamic/DynamicBase.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/DynamicBase.hpp b/include/wave/geometry/src/dynamic/DynamicBase.hpp
index 37973e2..d8efae1 100644
--- a/include/wave/geometry/src/dynamic/DynamicBase.hpp
+++ b/include/wave/geometry/src/dynamic/DynamicBase.hpp
@@ -77,6 +77,14 @@ class DynamicBase {
       MatrixMap<const void *, Scalar> &jac_map,
       const Eigen::Matrix<Scalar, 6, TangentSize> &init_adjoint) const = 0;
 
+    /** Version for adjoints which already have dynamic size, such as those passed on
+     * unchanged by an operation inside another Dynamic expression.
+     */
+    void dynReverse(MatrixMap<const void *, Scalar> &jac_map,
+                    const internal::DynamicMatrix<Scalar> &init_adjoint) const {
+        return dynReverseDynamic(jac_map, init_adjoint);
+    }
+
     /** Fallback for matrix sizes for which there is no specialization of dynReverse().
      *
      * Converts the adjoint to dynamic matrix and calls dynReverseDynamic().
-- 
2.43.0


From 538063edfe7b6cb0f2b57931136aeac6090a3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 18/29] fix: could not differentiate an expression containing a
 proxy with respect to a variable

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 921fbaf..1b3d7b1 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -134,6 +134,11 @@ struct DynamicJacobianEvaluator<Derived, enable_if_proxy_t<Derived>> {
     const void *target_ptr;
 };
 
+/** Any type might be in the expression behind a proxy */
+template <typename Derived, typename Target>
+struct contains_same_type<Derived, Target, enable_if_proxy_t<Derived>> : std::true_type {
+};
+
 template <typename Derived, typename Target>
 struct JacobianEvaluator<
   Derived,
@@ -150,7 +155,7 @@ struct JacobianEvaluator<
     WAVE_STRONG_INLINE boost::optional<jacobian_t<Derived, Target>> jacobian() const {
         // Check if Jacobian is wrt this Proxy
         if (isSame(this->v_eval.expr, this->target_ptr)) {
-            return identity_t<Derived>{}.eval();
+            return jacobian_t<Derived, Target>{jacobian_t<Derived, Target>::Identity()};
         }
         // Otherwise, dynamically get the Jacobian of the derived expression and convert
         // to the expected optional-fixed-size return type
-- 
2.43.0


From e12a69d3909b4753c1a7f6370c4c1cc75a6d8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 19/29] fix: a dynamic expression of a proxy could not be made

---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index 2990d1c..e08ce21 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -37,7 +37,8 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
  private:
     decltype(auto) constructEvaluator() const {
-        auto &&evaluable_expr = internal::prepareExpr(internal::adl{}, this->rhs());
+        // Unqualified, to find the overload for proxies
+        auto &&evaluable_expr = prepareExpr(internal::adl{}, this->rhs());
         using ExprType = tmp::remove_cr_t<decltype(evaluable_expr)>;
         static_assert(std::is_same<ExprType, PreparedType>{}, "Internal sanity check");
         this->lazy_evaluator.emplace(std::move(evaluable_expr));
-- 
2.43.0


From 890f1e366b15d3edb341ec9d9ac584d2447dee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 20/29] fix: proxies of some vector expressions could not be
 made

Return the value as the declared type, when the evaluator returns another (for
example an Eigen expression).
---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index e08ce21..050adea 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -59,7 +59,7 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
     auto dynEvaluate() const -> EvalType override {
         const auto &v_eval = this->constructEvaluator();
-        return v_eval();
+        return EvalType{v_eval()};
     }
 
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
-- 
2.43.0


From 1280bfd90bb7a8057187d91b609275dcc5d7f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:19 +0000
Subject: [PATCH 21/29] fix: some compounds of three or more elements did not
 compile

---
 include/wave/geometry/src/util/meta/type_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/util/meta/type_list.hpp b/include/wave/geometry/src/util/meta/type_list.hpp
index 335717f..64465f7 100644
--- a/include/wave/geometry/src/util/meta/type_list.hpp
+++ b/include/wave/geometry/src/util/meta/type_list.hpp
@@ -197,7 +197,7 @@ struct find<List<>, Target, I> {
  * A and B are not checked for duplicates within themselves.
  */
 template <typename A, typename B>
-struct concat_if_unique;
+struct concat_if_unique : std::false_type {};
 
 template <template <typename...> class List, typename... As, typename B0, typename... Bs>
 struct concat_if_unique<List<As...>, List<B0, Bs...>>
-- 
2.43.0


From ad140f1748968d3835f4877f5cfd628df6e6f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 22/29] fix: values of a compound referred to destroyed
 evaluators, and lost their frames

---
 .../geometry/src/core/functions/Evaluator.hpp | 24 +++++++++----------
 .../src/core/functions/NumericalJacobian.hpp  | 21 +++++-----------
 .../geometry/src/core/storage/NaryStorage.hpp |  3 ++-
 3 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/Evaluator.hpp b/include/wave/geometry/src/core/functions/Evaluator.hpp
index 8fc582b..9a33e1d 100644
--- a/include/wave/geometry/src/core/functions/Evaluator.hpp
+++ b/include/wave/geometry/src/core/functions/Evaluator.hpp
@@ -113,24 +113,14 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
                                              typename traits<Derived>::ElementTuple>;
     using IndexSeq = std::make_index_sequence<traits<Derived>::CompoundSize>;
 
-    template <size_t... Is>
-    inline static ChildEvalTuple expandToChildEvalTuple(const Derived &nary,
-                                                        std::index_sequence<Is...>) {
-        // Evaluator<...> is needed here to make gcc 5 happy
-        return ChildEvalTuple{
-          Evaluator<typename traits<Derived>::template ElementType<Is>>{
-            nary.template get<Is>()}...};
-    }
-
     template <size_t... Is>
     inline EvalType expandToEvalImpl(std::index_sequence<Is...>) {
-        return evalImpl(get_expr_tag_t<Derived>(), std::get<Is>(this->children)()...);
+        return evalImpl(get_expr_tag_t<Derived>(),
+                        prepareOutput(std::get<Is>(this->children))...);
     }
 
     WAVE_STRONG_INLINE explicit Evaluator(const Derived &expr)
-        : expr{expr},
-          children{expandToChildEvalTuple(expr, IndexSeq{})},
-          result{this->expandToEvalImpl(IndexSeq{})} {}
+        : Evaluator{expr, IndexSeq{}} {}
 
     const EvalType &operator()() const {
         return this->result;
@@ -140,6 +130,14 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
     const eval_storage_t<Derived> expr;
     const ChildEvalTuple children;
     const EvalType result;
+
+ private:
+    // Children are constructed in place, as their results may refer to their members
+    template <size_t... Is>
+    WAVE_STRONG_INLINE Evaluator(const Derived &expr, std::index_sequence<Is...>)
+        : expr{expr},
+          children{expr.template get<Is>()...},
+          result{this->expandToEvalImpl(IndexSeq{})} {}
 };
 
 }  // namespace internal
diff --git a/include/wave/geometry/src/core/functions/NumericalJacobian.hpp b/include/wave/geometry/src/core/functions/NumericalJacobian.hpp
index 42aa4bf..64a142a 100644
--- a/include/wave/geometry/src/core/functions/NumericalJacobian.hpp
+++ b/include/wave/geometry/src/core/functions/NumericalJacobian.hpp
@@ -176,16 +176,7 @@ template <typename Derived>
 struct EvaluatorWithDelta<Derived, enable_if_nary_t<Derived>> {
     using Scalar = scalar_t<Derived>;
 
-    // A bunch of tuple manipulation to get PlainExpr
-    using ChildEvalTuple = tmp::apply_each_t<::wave::internal::EvaluatorWithDelta,
-                                             typename traits<Derived>::ElementTuple>;
-    template <typename T>
-    using get_plain_type = typename T::PlainType;
-    using ChildPlainTypes = tmp::apply_each_t<get_plain_type, ChildEvalTuple>;
-    using PlainExpr = tmp::apply_t<traits<Derived>::template rebind, ChildPlainTypes>;
-
     using IndexSeq = std::make_index_sequence<traits<Derived>::CompoundSize>;
-    using OutputType = plain_output_t<Derived>;
     using PlainType = plain_eval_t<Derived>;
 
     template <size_t... Is>
@@ -198,13 +189,13 @@ struct EvaluatorWithDelta<Derived, enable_if_nary_t<Derived>> {
          *   for each child i:
          *     child_eval[i] = EvaluatorWithDelta<child derived type>{};
          *     child_value[i] = child_eval[i](nary.get<i>(), ...)
-         *   expr = PlainExpr{child_value[0], ... child_value[n]};
+         *   return PlainType{child_value[0], ... child_value[n]};
+         * where values are of user-facing type, as the compound stores them.
          */
-        auto expr = PlainExpr{
-          EvaluatorWithDelta<typename traits<Derived>::template ElementType<Is>>{}(
-            nary.template get<Is>(), target, coeff, delta)...};
-        auto v_eval = prepareEvaluatorTo<OutputType>(std::move(expr));
-        return PlainType{v_eval()};
+        return PlainType{
+          prepareLeafForOutput<typename traits<Derived>::template ElementType<Is>>(
+            EvaluatorWithDelta<typename traits<Derived>::template ElementType<Is>>{}(
+              nary.template get<Is>(), target, coeff, delta))...};
     }
 
     PlainType operator()(const Derived &expr,
diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 77d9c87..8284fac 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -117,7 +117,8 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
 
  public:
     using PreparedType = ConvertedType &&;
-    using EvalType = rebind<typename traits<Primitives>::EvalType...>;
+    // The elements' values are stored: they may not refer to the evaluators of elements
+    using EvalType = rebind<plain_output_t<Primitives>...>;
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-- 
2.43.0


From 70ece6689342e1e429c4480c4a2b1ac8d44e8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 23/29] fix: could not differentiate a compound whose variables
 have different types

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8284fac..15682cc 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -122,8 +122,8 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-    using UniqueLeaves =
-      tmp::concat_if_unique_many<typename traits<Primitives>::UniqueLeaves...>;
+    // @todo typed and reverse evaluation of n-ary jacobians
+    using UniqueLeaves = std::false_type;
     using ConvertTo = tmp::type_list<>;
     using Scalar = common_scalar_t<Primitives...>;
 
-- 
2.43.0


From e585f22a3ff1e2809526769420a64bae4aff924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 24/29] fix: a segment of a diagonal block matrix could not be
 accessed

---
 include/wave/geometry/src/core/storage/BlockMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/BlockMatrix.hpp b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
index 1ba0bd5..f27408a 100644
--- a/include/wave/geometry/src/core/storage/BlockMatrix.hpp
+++ b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
@@ -135,7 +135,7 @@ class DiagonalBlockMatrix
     template <int I>
     auto segmentWrt() noexcept {
         static_assert(I < LIndices::size(), "Index out of range");
-        return this->template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
+        return this->diagonal().template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
     }
 };
 
-- 
2.43.0


From 2352a3d4acc1613240cd067fe512cdf694da36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 25/29] fix: could not index a constant MatrixMap

---
 include/wave/geometry/src/util/math/MatrixMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/util/math/MatrixMap.hpp b/include/wave/geometry/src/util/math/MatrixMap.hpp
index 2f79ddf..0a93cfa 100644
--- a/include/wave/geometry/src/util/math/MatrixMap.hpp
+++ b/include/wave/geometry/src/util/math/MatrixMap.hpp
@@ -65,7 +65,7 @@ class MatrixMap {
 
     /** Returns a const block representing the matrix for the given key */
     auto operator[](const Key &key) const {
-        const auto &v = this->index_map[key];
+        const auto &v = this->index_map.at(key);
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-- 
2.43.0


From d934191e22d0d11714ba407e0e10178ab0088f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 26/29] fix: covariance() and inverseSqrtCov() of temporary
 noise models did not compile

---
 include/wave/geometry/src/estimation/Noise.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 3c55661..8f86cec 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -55,7 +55,7 @@ class FullNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
+    auto covariance() && -> MatrixType {
         return std::move(*this).cov_;
     }
 
@@ -63,7 +63,7 @@ class FullNoise {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
+    auto inverseSqrtCov() && -> MatrixType {
         return std::move(*this).inv_sqrt_cov_;
     }
 
@@ -119,7 +119,7 @@ class DiagonalNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
+    auto covariance() && -> MatrixType {
         return std::move(*this).cov_;
     }
 
@@ -127,7 +127,7 @@ class DiagonalNoise {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
+    auto inverseSqrtCov() && -> MatrixType {
         return std::move(*this).inv_sqrt_cov_;
     }
 
-- 
2.43.0


From 4c2d690f67a593e1b6d99a6d990dde8bc9f0fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:32 +0000
Subject: [PATCH 27/29] fix: DiagonalNoise::FromStdDev evaluated its argument
 more than once

---
 include/wave/geometry/src/estimation/Noise.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 8f86cec..fda3e31 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -100,8 +100,10 @@ class DiagonalNoise {
     /** Constructs from the given vector of standard deviations */
     template <typename OtherDerived>
     static DiagonalNoise FromStdDev(const Eigen::MatrixBase<OtherDerived> &stddev) {
-        return DiagonalNoise{stddev.derived().cwiseProduct(stddev.derived()).asDiagonal(),
-                             stddev.derived().cwiseInverse().asDiagonal()};
+        // The argument may be an expression giving different values each time, e.g. Random
+        const auto s = stddev.derived().eval();
+        return DiagonalNoise{s.cwiseProduct(s).asDiagonal(),
+                             s.cwiseInverse().asDiagonal()};
     }
 
     /** Construct from coefficients of standard deviation given as parameters */
-- 
2.43.0


From f2ef88c4dfdeea84af0d87c68b205b1098fe7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:17 +0000
Subject: [PATCH 28/29] fix: resolve ambiguous product of 1x1 inner product
 with an identity matrix

---
 .../geometry/src/util/math/IdentityMatrix.hpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/wave/geometry/src/util/math/IdentityMatrix.hpp b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
index a459594..2ae9224 100644
--- a/include/wave/geometry/src/util/math/IdentityMatrix.hpp
+++ b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
@@ -83,6 +83,27 @@ EIGEN_DEVICE_FUNC inline const wave::IdentityMatrix<Scalar, N> &operator*(
     return i;
 }
 
+/**
+ * Multiply an Identity expression by a product
+ * (Provided to break tie with multiplication by a scalar, to which an inner product
+ * converts)
+ */
+template <typename Scalar, int N, typename Lhs, typename Rhs, int Option>
+EIGEN_DEVICE_FUNC inline const Product<Lhs, Rhs, Option> &operator*(
+  const wave::IdentityMatrix<Scalar, N> &, const Product<Lhs, Rhs, Option> &rhs) {
+    return rhs;
+}
+
+/**
+ * Multiply a product by an Identity expression
+ * (Provided to break tie with multiplication by a scalar)
+ */
+template <typename Scalar, int N, typename Lhs, typename Rhs, int Option>
+EIGEN_DEVICE_FUNC inline const Product<Lhs, Rhs, Option> &operator*(
+  const Product<Lhs, Rhs, Option> &lhs, const wave::IdentityMatrix<Scalar, N> &) {
+    return lhs;
+}
+
 }  // namespace Eigen
 
 #endif  // WAVE_GEOMETRY_IDENTITYMATRIX_HPP
-- 
2.43.0


From d4cd06a591eeb4c2bd8c3c155ee929f934d540aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:17 +0000
Subject: [PATCH 29/29] fix: derivative with respect to a different variable of
 an occurring type is zero

---
 .../geometry/src/core/functions/IsSame.hpp    | 36 ++++++++++---------
 .../core/functions/TypedJacobianEvaluator.hpp | 24 ++++++++++---
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/IsSame.hpp b/include/wave/geometry/src/core/functions/IsSame.hpp
index b2d20e2..50517bb 100644
--- a/include/wave/geometry/src/core/functions/IsSame.hpp
+++ b/include/wave/geometry/src/core/functions/IsSame.hpp
@@ -83,30 +83,34 @@ inline constexpr bool isSame(const A &a, const void *b) noexcept {
  *  or equality of contents. Expressions which evaluate to the same result may not be
  *  considered identical by isSame.
  */
+// Version for matching types
 template <typename A>
-inline constexpr bool containsSame(const ExpressionBase<A> &a,
-                                   const ExpressionBase<A> &b) noexcept {
-    return &a.derived().value() == &b.derived().value();
+inline constexpr bool containsSame(const A &a, const A &b) noexcept {
+    return isSame(a, b);
 }
 
-template <typename A, typename B, internal::enable_if_leaf_t<A, int> = 0>
-inline constexpr bool containsSame(const ExpressionBase<A> &,
-                                   const ExpressionBase<B> &) noexcept {
-    static_assert(!std::is_same<A, B>{}, "Should only be called when types differ");
+template <typename A,
+          typename B,
+          std::enable_if_t<internal::is_leaf_or_scalar<A>{} && !std::is_same<A, B>{},
+                           int> = 0>
+inline constexpr bool containsSame(const A &, const B &) noexcept {
     return false;
 }
 
-template <typename A, typename B, internal::enable_if_unary_t<A, int> = 0>
-inline constexpr bool containsSame(const ExpressionBase<A> &a,
-                                   const ExpressionBase<B> &b) noexcept {
-    return std::is_same<A, B>{} || containsSame(a.derived().rhs(), b);
+template <typename A,
+          typename B,
+          std::enable_if_t<internal::is_unary_expression<A>{} && !std::is_same<A, B>{},
+                           int> = 0>
+inline constexpr bool containsSame(const A &a, const B &b) noexcept {
+    return containsSame(a.rhs(), b);
 }
 
-template <typename A, typename B, internal::enable_if_binary_t<A, int> = 0>
-inline constexpr bool containsSame(const ExpressionBase<A> &a,
-                                   const ExpressionBase<B> &b) noexcept {
-    return std::is_same<A, B>{} || containsSame(a.derived().lhs(), b) ||
-           containsSame(a.derived().rhs(), b);
+template <typename A,
+          typename B,
+          std::enable_if_t<internal::is_binary_expression<A>{} && !std::is_same<A, B>{},
+                           int> = 0>
+inline constexpr bool containsSame(const A &a, const B &b) noexcept {
+    return containsSame(a.lhs(), b) || containsSame(a.rhs(), b);
 }
 
 }  // namespace wave
diff --git a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
index 045c45d..b113126 100644
--- a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
@@ -272,7 +272,10 @@ template <typename Derived,
 auto evaluateTypedJacobian(const ExpressionBase<Derived> &expr,
                            const TargetDerived &target)
   -> jacobian_t<Derived, TargetDerived> {
-    assert(containsSame(expr, target));
+    // The expression might have another object of the same type
+    if (!containsSame(expr.derived(), target)) {
+        return jacobian_t<Derived, TargetDerived>::Zero();
+    }
 
     // Note since we don't return the value, we don't need the user-facing OutputType
     using OutType = eval_output_t<Derived>;
@@ -292,6 +295,21 @@ auto evaluateTypedJacobian(const ExpressionBase<Derived> & /*expr*/, const Targe
     return jacobian_t<Derived, TargetDerived>::Zero();
 }
 
+/** Evaluates one Jacobian given the evaluator of an expression
+ *
+ * @returns zero if the expression has another object of the same type as the target
+ */
+template <typename Derived, typename ExprType, typename Target>
+WAVE_STRONG_INLINE auto evaluateOneTypedJacobian(const ExpressionBase<Derived> &expr,
+                                                 const Evaluator<ExprType> &v_eval,
+                                                 const Target &target)
+  -> jacobian_t<Derived, Target> {
+    if (!containsSame(expr.derived(), target)) {
+        return jacobian_t<Derived, Target>::Zero();
+    }
+    return TypedJacobianEvaluator<ExprType, Target>{v_eval, target}.jacobian();
+}
+
 /** Evaluate the result of an expression tree and any number of jacobians
  *
  * @return the value of the expression
@@ -302,8 +320,6 @@ WAVE_STRONG_INLINE auto evaluateWithTypedJacobians(const ExpressionBase<Derived>
                                                    const Targets &... targets)
   -> std::tuple<plain_output_t<Derived>, jacobian_t<Derived, Targets>...> {
     // @todo better checks for validity of arguments
-    // @todo debug-mode checks
-    // assert(containsSame(expr, target));
 
     // Get the correct evaluator
     using OutputType = plain_output_t<Derived>;
@@ -312,7 +328,7 @@ WAVE_STRONG_INLINE auto evaluateWithTypedJacobians(const ExpressionBase<Derived>
 
     return std::forward_as_tuple(
       prepareOutput(v_eval),
-      internal::TypedJacobianEvaluator<ExprType, Targets>{v_eval, targets}.jacobian()...);
+      evaluateOneTypedJacobian<Derived, ExprType>(expr, v_eval, targets)...);
 }
 
 /** Evaluate one Jacobian of an expression, using forward-mode AD.
-- 
2.43.0

