From fe4c792d8895546b288728a59044e5b9c24e2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 01/11] fix: close obstacle polygons at their own last corner

The closing edge of an obstacle was looked up with the bumper corner count,
which picks a wrong edge or throws when the two counts differ.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 446d7ec0c328d8fda3df345c6bad864ddb11dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 02/11] fix: apply point obstacles to all bumpers

A single-point bumper facing a single-point obstacle ended the loop and
skipped every bumper added after it.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From 20c503d5d8e4161c6a7c003b40e8eda721948878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 03/11] fix: compare the squared line-point distance once

LinePointDistance() returns the squared distance; squaring it again enforced
sqrt(minDistance) instead of minDistance.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 5 +++--
 include/trajopt/constraint/PointLineConstraint.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..4d0a392 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,9 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist =
+        detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..416fa5c 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
+    auto squaredDist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
-- 
2.43.0


From 411b3f152316f9611afacd1b0f8a199ed4d43112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 04/11] fix: make translation type conversion compile

The converting constructor read private members of another instantiation.
---
 include/trajopt/geometry/Translation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From d35bee3f2ea1dda7e8e2061db399511512607a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 05/11] fix: bound the time step by all pairs of modules

Only modules adjacent in the list were compared, so the bound depended on the
order in which the modules were listed.
---
 src/SwerveTrajectoryGenerator.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..40d5a57 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -107,17 +107,19 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   double minWidth = INFINITY;
   for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                 path.drivetrain.modules.at(i).translation.X()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                             path.drivetrain.modules.at(i).translation.X()));
-    }
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                 path.drivetrain.modules.at(i).translation.Y()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                             path.drivetrain.modules.at(i).translation.Y()));
+    for (size_t j = 0; j < i; j++) {
+      if (std::abs(path.drivetrain.modules.at(j).translation.X() -
+                   path.drivetrain.modules.at(i).translation.X()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.X() -
+                               path.drivetrain.modules.at(i).translation.X()));
+      }
+      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                   path.drivetrain.modules.at(i).translation.Y()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                               path.drivetrain.modules.at(i).translation.Y()));
+      }
     }
   }
 
-- 
2.43.0


From 6f2ba98d28bd1a770dd416100be053ad33b679d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 06/11] fix: keep progress callbacks valid when a generator is
 moved

---
 include/trajopt/SwerveTrajectoryGenerator.hpp | 2 +-
 src/SwerveTrajectoryGenerator.cpp             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..2b85f2c 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -70,7 +70,7 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+  std::vector<std::function<void(SwerveTrajectoryGenerator&)>> callbacks;
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 40d5a57..dd395ee 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -42,7 +42,7 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
+  callbacks.emplace_back([handle](SwerveTrajectoryGenerator& generator) {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
@@ -55,8 +55,8 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
     lastFrameTime = now;
 
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
+    auto soln = generator.ConstructSwerveSolution();
+    for (auto& callback : generator.path.callbacks) {
       callback(soln, handle);
     }
   });
@@ -278,7 +278,7 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   GetCancellationFlag() = 0;
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
-      callback();
+      callback(*this);
     }
     return trajopt::GetCancellationFlag();
   });
-- 
2.43.0


From 68a9e57ec759703c2f0d591ead54198dbaa41d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 07/11] fix: expected<void, E> operator!= compares errors for
 inequality

It returned true for two equal errors and false for different ones.
---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..b4c348d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2463,7 +2463,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 788e4f2ea280a6a5436d2d7c5e2151fa267138e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 08/11] fix: do not construct a value to be overwritten in
 expected's converting constructors

The base was default-constructed with a T that was then constructed over and
never destroyed.
---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index b4c348d..c61bee9 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1668,7 +1668,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1683,7 +1684,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1697,7 +1699,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1711,7 +1714,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From 003ccd9cf33b479cb0b99928a0aa35b2f6b8f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 09/11] fix: expected keeps its state when a copy throws during
 assignment

assign() and operator=(U&&) moved the saved error into an object that had
already been destroyed, destroyed the value before copying an error, or were
noexcept although the copy may throw.
---
 include/trajopt/util/expected | 67 +++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index c61bee9..fff7162 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -756,7 +756,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(rhs.get());
@@ -771,7 +771,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
             detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
                                 std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       T tmp = rhs.get();
       geterr().~unexpected<E>();
@@ -797,9 +797,10 @@ struct expected_operations_base : expected_storage_base<T, E> {
 
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(rhs.get());
+        new (std::addressof(this->m_val)) T(rhs.get());
+        this->m_has_val = true;
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -814,7 +815,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(expected_operations_base&& rhs) noexcept {
+  void assign(expected_operations_base&& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(std::move(rhs).get());
@@ -832,9 +833,10 @@ struct expected_operations_base : expected_storage_base<T, E> {
       geterr().~unexpected<E>();
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(std::move(rhs).get());
+        new (std::addressof(this->m_val)) T(std::move(rhs).get());
+        this->m_has_val = true;
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
@@ -875,8 +877,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        replace_val_with_error(std::forward<Rhs>(rhs).geterr());
       }
     } else {
       if (!rhs.m_has_val) {
@@ -885,6 +886,38 @@ struct expected_operations_base : expected_storage_base<T, E> {
     }
   }
 
+  // The value is kept if constructing the error throws. If the error can be
+  // moved without throwing, it's constructed before the value is destroyed.
+  // Otherwise, the value is moved aside and moved back.
+  template <class Err, class G = E,
+            detail::enable_if_t<std::is_nothrow_move_constructible<G>::value>* =
+                nullptr>
+  void replace_val_with_error(Err&& e) {
+    unexpected<E> tmp(std::forward<Err>(e));
+    destroy_val();
+    construct_error(std::move(tmp));
+  }
+
+  template <class Err, class G = E,
+            detail::enable_if_t<
+                !std::is_nothrow_move_constructible<G>::value>* = nullptr>
+  void replace_val_with_error(Err&& e) {
+    T tmp = std::move(get());
+    destroy_val();
+#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
+    try {
+      new (std::addressof(this->m_unexpect))
+          unexpected<E>(std::forward<Err>(e));
+      this->m_has_val = false;
+    } catch (...) {
+      construct(std::move(tmp));
+      throw;
+    }
+#else
+    construct_error(std::forward<Err>(e));
+#endif
+  }
+
   bool has_value() const { return this->m_has_val; }
 
   TRAJOPT_EXPECTED_11_CONSTEXPR T& get() & { return this->m_val; }
@@ -936,7 +969,7 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   }
 
   template <class Rhs>
-  void assign(Rhs&& rhs) noexcept {
+  void assign(Rhs&& rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -946,7 +979,9 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
       }
     } else {
       if (!rhs.m_has_val) {
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        new (std::addressof(this->m_unexpect))
+            unexpected<E>(std::forward<Rhs>(rhs).geterr());
+        this->m_has_val = false;
       }
     }
   }
@@ -1108,7 +1143,9 @@ struct expected_move_assign_base<T, E, false>
   expected_move_assign_base&
   operator=(expected_move_assign_base&& rhs) noexcept(
       std::is_nothrow_move_constructible<T>::value &&
-      std::is_nothrow_move_assignable<T>::value) {
+      std::is_nothrow_move_assignable<T>::value &&
+      std::is_nothrow_move_constructible<E>::value &&
+      std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
@@ -1783,7 +1820,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1852,7 +1889,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1892,7 +1929,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
-- 
2.43.0


From 55dbf3055e7cec6997a1e18066536130d9d49532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 10/11] fix: expected::emplace() keeps the old value when the
 constructor throws

The old value was destroyed first and then destroyed again with the expected.
---
 include/trajopt/util/expected | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index fff7162..8aa1285 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1878,8 +1878,18 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      // A movable value is kept if the constructor throws
+      if constexpr (std::is_nothrow_move_constructible<T>::value) {
+        T t(std::forward<Args>(args)...);
+        val().~T();
+        ::new (valptr()) T(std::move(t));
+      } else if constexpr (std::is_move_assignable<T>::value) {
+        T t(std::forward<Args>(args)...);
+        val() = std::move(t);
+      } else {
+        val().~T();
+        ::new (valptr()) T(std::forward<Args>(args)...);
+      }
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
-- 
2.43.0


From 5f57f902176dd990f9a481e58aeb978a5c37f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 11/11] fix: expected::swap() restores the moved-out object
 when the other move throws

It was move-assigned into an object that had already been destroyed.
---
 include/trajopt/util/expected | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 8aa1285..471b5db 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2002,7 +2002,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -2025,7 +2025,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0

