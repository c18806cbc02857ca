From 272f00fa02146040caf0c673a0d2aa3f07565b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 01/12] fix: keep the progress update rate limit per generator

The time of the last update was a function-local static shared by all
generators without synchronisation: generators running on different threads
raced on it, and one generator's updates starved the others'.
---
 src/SwerveTrajectoryGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..14f4403 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -42,12 +42,13 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
+  callbacks.emplace_back([this, handle = handle,
+                          lastFrameTime =
+                              std::chrono::steady_clock::now()]() mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
     // FPS limit on sending updates
-    static auto lastFrameTime = std::chrono::steady_clock::now();
     auto now = std::chrono::steady_clock::now();
     if (now - lastFrameTime < timePerFrame) {
       return;
-- 
2.43.0


From 714c2904573e4477a768d9f75b7e7bf858355d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 02/12] fix: let progress updates of a moved generator use the
 generator itself

The update function captured the address of the generator it was constructed
in, so that after moving a generator it read the moved-from (often destroyed)
object.
---
 include/trajopt/SwerveTrajectoryGenerator.hpp |  2 +-
 src/SwerveTrajectoryGenerator.cpp             | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..2b85f2c 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -70,7 +70,7 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+  std::vector<std::function<void(SwerveTrajectoryGenerator&)>> callbacks;
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 14f4403..e120e56 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -42,9 +42,9 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle,
-                          lastFrameTime =
-                              std::chrono::steady_clock::now()]() mutable {
+  callbacks.emplace_back([handle = handle,
+                          lastFrameTime = std::chrono::steady_clock::now()](
+                             SwerveTrajectoryGenerator& generator) mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
@@ -56,8 +56,8 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
     lastFrameTime = now;
 
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
+    auto soln = generator.ConstructSwerveSolution();
+    for (auto& callback : generator.path.callbacks) {
       callback(soln, handle);
     }
   });
@@ -277,7 +277,7 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   GetCancellationFlag() = 0;
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
-      callback();
+      callback(*this);
     }
     return trajopt::GetCancellationFlag();
   });
-- 
2.43.0


From 9a978822c047e63b578e0eabc21cde50b7564dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 03/12] fix: constrain all obstacle edges, for all bumpers

The closing edge of an obstacle was looked up with the bumper's corner count,
which constrained the wrong edge or threw std::out_of_range when the shapes had
different corner counts. A single-point bumper meeting a single-point obstacle
skipped all bumpers after it.
---
 src/path/SwervePathBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 61bf240ed3b86065b681a7fe7cb97186c2371f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 04/12] fix: keep the path builder consistent when adding
 waypoints fails

If an allocation failed part-way, the waypoints, their initial guesses and the
control interval counts were left with mismatching lengths, and a later use of
the builder indexed out of range.
---
 src/path/SwervePathBuilder.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index c3d9663..dba54b3 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -202,12 +202,23 @@ void SwervePathBuilder::NewWpts(size_t finalIndex) {
   int64_t targetIndex = finalIndex;
   int64_t greatestIndex = path.waypoints.size() - 1;
   if (targetIndex > greatestIndex) {
-    for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
-      path.waypoints.emplace_back();
-      initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});
-      if (i != 0) {
-        controlIntervalCounts.push_back(40);
+    const size_t waypointCount = path.waypoints.size();
+    const size_t guessCount = initialGuessPoints.size();
+    const size_t intervalCount = controlIntervalCounts.size();
+    try {
+      for (int64_t i = greatestIndex + 1; i <= targetIndex; ++i) {
+        path.waypoints.emplace_back();
+        initialGuessPoints.emplace_back(std::vector<Pose2d>{{0.0, 0.0, {0.0}}});
+        if (i != 0) {
+          controlIntervalCounts.push_back(40);
+        }
       }
+    } catch (...) {
+      // Keep the three lists in step
+      path.waypoints.resize(waypointCount);
+      initialGuessPoints.resize(guessCount);
+      controlIntervalCounts.resize(intervalCount);
+      throw;
     }
   }
 }
-- 
2.43.0


From 6144e892a9e4fee55f89228ae1c484dec5ef089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 05/12] fix: enforce the minimum distance between lines and
 points

The helper returned the squared distance, which the constraints squared again
before comparing it with the squared minimum distance: distances above one were
under-constrained and distances below one over-constrained.
---
 include/trajopt/constraint/LinePointConstraint.hpp      | 5 +++--
 include/trajopt/constraint/PointLineConstraint.hpp      | 6 +++---
 include/trajopt/constraint/detail/LinePointDistance.hpp | 6 +++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..afc3e45 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,9 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDistance =
+        detail::LinePointSquaredDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDistance >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..1cbcadf 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
-        detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDistance = detail::LinePointSquaredDistance(
+        m_fieldLineStart, m_fieldLineEnd, point);
+    problem.SubjectTo(squaredDistance >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/detail/LinePointDistance.hpp b/include/trajopt/constraint/detail/LinePointDistance.hpp
index 87c5751..502b5c0 100644
--- a/include/trajopt/constraint/detail/LinePointDistance.hpp
+++ b/include/trajopt/constraint/detail/LinePointDistance.hpp
@@ -10,9 +10,9 @@ namespace trajopt::detail {
 
 // https://www.desmos.com/calculator/cqmc1tjtsv
 template <typename T, typename U>
-decltype(auto) LinePointDistance(const Translation2<T>& lineStart,
-                                 const Translation2<T>& lineEnd,
-                                 const Translation2<U>& point) {
+decltype(auto) LinePointSquaredDistance(const Translation2<T>& lineStart,
+                                        const Translation2<T>& lineEnd,
+                                        const Translation2<U>& point) {
   using R = decltype(std::declval<T>() + std::declval<U>());
 
   auto max = [](R a, R b) {
-- 
2.43.0


From ae9fc658d669c4fa0c27c76ce43db09653bbdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 06/12] fix: do not lose cancellation requests when another
 generation starts

Every generation cleared the global cancellation flag when it started, so that
a request was lost for generations that were in progress and had not polled
the flag yet. Requests consumed that way are now counted, and a generation is
cancelled if the flag is set or the count has moved since it started.
---
 include/trajopt/util/Cancellation.hpp | 17 +++++++++++++++++
 src/SwerveTrajectoryGenerator.cpp     |  6 +++---
 src/util/Cancellation.cpp             | 26 ++++++++++++++++++++++++++
 3 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/include/trajopt/util/Cancellation.hpp b/include/trajopt/util/Cancellation.hpp
index ad78584..862311a 100644
--- a/include/trajopt/util/Cancellation.hpp
+++ b/include/trajopt/util/Cancellation.hpp
@@ -2,6 +2,8 @@
 
 #pragma once
 
+#include <stdint.h>
+
 #include <atomic>
 
 #include "trajopt/util/SymbolExports.hpp"
@@ -10,4 +12,19 @@ namespace trajopt {
 
 TRAJOPT_DLLEXPORT std::atomic<int>& GetCancellationFlag();
 
+/**
+ * Begins work that later cancellation requests apply to. Requests made so far
+ * are consumed: they only apply to work that began before them.
+ *
+ * @return An identifier for IsCancelled().
+ */
+TRAJOPT_DLLEXPORT int64_t BeginCancellableWork();
+
+/**
+ * Returns true if cancellation was requested after the given work began.
+ *
+ * @param work The identifier BeginCancellableWork() returned.
+ */
+TRAJOPT_DLLEXPORT bool IsCancelled(int64_t work);
+
 }  // namespace trajopt
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index e120e56..491e26a 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -274,12 +274,12 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
 expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
     bool diagnostics) {
-  GetCancellationFlag() = 0;
-  problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
+  int64_t work = BeginCancellableWork();
+  problem.Callback([this, work](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
       callback(*this);
     }
-    return trajopt::GetCancellationFlag();
+    return IsCancelled(work);
   });
 
   // tolerance of 1e-4 is 0.1 mm
diff --git a/src/util/Cancellation.cpp b/src/util/Cancellation.cpp
index fe37f17..4a3042d 100644
--- a/src/util/Cancellation.cpp
+++ b/src/util/Cancellation.cpp
@@ -2,11 +2,37 @@
 
 #include "trajopt/util/Cancellation.hpp"
 
+#include <mutex>
+
 namespace trajopt {
 
+namespace {
+
+/// Number of consumed cancellation requests.
+std::atomic<int64_t> consumedRequests{0};
+
+std::mutex consumeMutex;
+
+}  // namespace
+
 std::atomic<int>& GetCancellationFlag() {
   static std::atomic<int> flag{0};
   return flag;
 }
 
+int64_t BeginCancellableWork() {
+  std::scoped_lock lock{consumeMutex};
+  if (GetCancellationFlag() != 0) {
+    // Count the request before clearing the flag so that work in progress
+    // observes at least one of the two
+    ++consumedRequests;
+    GetCancellationFlag() = 0;
+  }
+  return consumedRequests;
+}
+
+bool IsCancelled(int64_t work) {
+  return GetCancellationFlag() != 0 || consumedRequests != work;
+}
+
 }  // namespace trajopt
-- 
2.43.0


From 3842ec53ee205273c0e922e51d7e51b4bed1e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 07/12] fix: compare errors of void expecteds for inequality

operator!= returned whether the errors are equal.
---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..b4c348d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2463,7 +2463,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From a7916074a6182742566f4093dabdb5b69405f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 08/12] fix: do not leak a default value when converting
 expecteds

The converting constructors constructed their value or error on top of a
default-constructed value, which was never destroyed.
---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index b4c348d..c61bee9 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1668,7 +1668,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1683,7 +1684,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1697,7 +1699,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1711,7 +1714,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From b8a3a37b765c173aec76bae71e62a792ceffade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 09/12] fix: keep the contents of an expected when replacing
 them fails

Assigning an error destroyed the value before the new error was constructed,
emplace() the same for values, and the recovery after a failed construction
assigned to an object that had been destroyed instead of constructing it. If
the construction threw, the contents were destroyed twice later.
---
 include/trajopt/util/expected | 181 +++++++++-------------------------
 1 file changed, 45 insertions(+), 136 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index c61bee9..6948d6d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -745,129 +745,76 @@ struct expected_operations_base : expected_storage_base<T, E> {
     this->m_has_val = false;
   }
 
-#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
-
-  // These assign overloads ensure that the most efficient assignment
-  // implementation is used while maintaining the strong exception guarantee.
-  // The problematic case is where rhs has a value, but *this does not.
-  //
-  // This overload handles the case where we can just copy-construct `T`
-  // directly into place without throwing.
-  template <class U = T,
-            detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>* =
-                nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
+  // Replaces the error by a value constructed from `args`. If constructing it
+  // throws, the error is kept.
+  template <class... Args>
+  void replace_error(Args&&... args) {
+    if constexpr (std::is_nothrow_constructible<T, Args&&...>::value) {
       geterr().~unexpected<E>();
-      construct(rhs.get());
-    } else {
-      assign_common(rhs);
-    }
-  }
-
-  // This overload handles the case where we can attempt to create a copy of
-  // `T`, then no-throw move it into place if the copy was successful.
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
-                                std::is_nothrow_move_constructible<U>::value>* =
-                nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      T tmp = rhs.get();
+      construct(std::forward<Args>(args)...);
+    } else if constexpr (std::is_nothrow_move_constructible<T>::value) {
+      T tmp(std::forward<Args>(args)...);
       geterr().~unexpected<E>();
       construct(std::move(tmp));
     } else {
-      assign_common(rhs);
-    }
-  }
-
-  // This overload is the worst-case, where we have to move-construct the
-  // unexpected value into temporary storage, then try to copy the T into place.
-  // If the construction succeeds, then everything is fine, but if it throws,
-  // then we move the old unexpected value back into place before rethrowing the
-  // exception.
-  template <class U = T,
-            detail::enable_if_t<
-                !std::is_nothrow_copy_constructible<U>::value &&
-                !std::is_nothrow_move_constructible<U>::value>* = nullptr>
-  void assign(const expected_operations_base& rhs) {
-    if (!this->m_has_val && rhs.m_has_val) {
-      auto tmp = std::move(geterr());
+      unexpected<E> tmp(std::move(geterr()));
       geterr().~unexpected<E>();
-
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(rhs.get());
+        construct(std::forward<Args>(args)...);
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct_error(std::move(tmp));
         throw;
       }
 #else
-      construct(rhs.get());
+      construct(std::forward<Args>(args)...);
 #endif
-    } else {
-      assign_common(rhs);
     }
   }
 
-  // These overloads do the same as above, but for rvalues
-  template <class U = T,
-            detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>* =
-                nullptr>
-  void assign(expected_operations_base&& rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(std::move(rhs).get());
+  // Replaces the value by a copy of (or by the moved) error `e`. If
+  // constructing it throws, the value is kept.
+  template <class Err>
+  void replace_value(Err&& e) {
+    if constexpr (std::is_nothrow_constructible<unexpected<E>, Err&&>::value) {
+      destroy_val();
+      construct_error(std::forward<Err>(e));
+    } else if constexpr (std::is_nothrow_move_constructible<E>::value) {
+      unexpected<E> tmp(std::forward<Err>(e));
+      destroy_val();
+      construct_error(std::move(tmp));
     } else {
-      assign_common(std::move(rhs));
-    }
-  }
-
-  template <class U = T,
-            detail::enable_if_t<
-                !std::is_nothrow_move_constructible<U>::value>* = nullptr>
-  void assign(expected_operations_base&& rhs) {
-    if (!this->m_has_val && rhs.m_has_val) {
-      auto tmp = std::move(geterr());
-      geterr().~unexpected<E>();
+      T tmp(std::move(get()));
+      destroy_val();
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(std::move(rhs).get());
+        construct_error(std::forward<Err>(e));
       } catch (...) {
-        geterr() = std::move(tmp);
+        construct(std::move(tmp));
         throw;
       }
 #else
-      construct(std::move(rhs).get());
+      construct_error(std::forward<Err>(e));
 #endif
-    } else {
-      assign_common(std::move(rhs));
     }
   }
 
-#else
-
-  // If exceptions are disabled then we can just copy-construct
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(rhs.get());
+      replace_error(rhs.get());
     } else {
       assign_common(rhs);
     }
   }
 
-  void assign(expected_operations_base&& rhs) noexcept {
+  void assign(expected_operations_base&& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(std::move(rhs).get());
+      replace_error(std::move(rhs).get());
     } else {
       assign_common(std::move(rhs));
     }
   }
 
-#endif
-
   // The common part of move/copy assigning
   template <class Rhs>
   void assign_common(Rhs&& rhs) {
@@ -875,8 +822,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        replace_value(std::forward<Rhs>(rhs).geterr());
       }
     } else {
       if (!rhs.m_has_val) {
@@ -1775,21 +1721,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
     if (has_value()) {
       val() = std::forward<U>(v);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<U>(v));
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(std::forward<U>(v));
-      this->m_has_val = true;
-#endif
+      this->replace_error(std::forward<U>(v));
     }
 
     return *this;
@@ -1841,24 +1773,15 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
-    } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
+      T tmp(std::forward<Args>(args)...);
+      if constexpr (std::is_nothrow_move_constructible<T>::value) {
+        val().~T();
+        ::new (valptr()) T(std::move(tmp));
+      } else {
+        val() = std::move(tmp);
       }
-#else
-      ::new (valptr()) T(std::forward<Args>(args)...);
-      this->m_has_val = true;
-#endif
+    } else {
+      this->replace_error(std::forward<Args>(args)...);
     }
   }
 
@@ -1884,21 +1807,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       T t(il, std::forward<Args>(args)...);
       val() = std::move(t);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(il, std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(il, std::forward<Args>(args)...);
-      this->m_has_val = true;
-#endif
+      this->replace_error(il, std::forward<Args>(args)...);
     }
   }
 
@@ -1955,7 +1864,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1978,7 +1887,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 28c22bd58ddd60604e76d67256a3667519a10384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 10/12] fix: let exceptions of copies reach the caller of
 expected

Copying, moving and assigning were noexcept although they copy the contained
value or error, so that running out of memory while a result was copied ended
the process. Objects whose construction failed remember that there is nothing
to destroy.
---
 include/trajopt/util/expected | 58 +++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 6948d6d..510bd56 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -471,7 +471,8 @@ template <class T, class E, bool = std::is_trivially_destructible<T>::value,
           bool = std::is_trivially_destructible<E>::value>
 struct expected_storage_base {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
-  constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
+  constexpr expected_storage_base(no_init_t)
+      : m_no_init(), m_has_val(false), m_is_init(false) {}
 
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args&&...>::value>* =
@@ -502,7 +503,7 @@ struct expected_storage_base {
   ~expected_storage_base() {
     if (m_has_val) {
       m_val.~T();
-    } else {
+    } else if (m_is_init) {
       m_unexpect.~unexpected<E>();
     }
   }
@@ -512,6 +513,8 @@ struct expected_storage_base {
     char m_no_init;
   };
   bool m_has_val;
+  // False while neither a value nor an error has been constructed
+  bool m_is_init = true;
 };
 
 // This specialization is for when both `T` and `E` are trivially-destructible,
@@ -519,7 +522,8 @@ struct expected_storage_base {
 template <class T, class E>
 struct expected_storage_base<T, E, true, true> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
-  constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
+  constexpr expected_storage_base(no_init_t)
+      : m_no_init(), m_has_val(false), m_is_init(false) {}
 
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args&&...>::value>* =
@@ -554,6 +558,8 @@ struct expected_storage_base<T, E, true, true> {
     char m_no_init;
   };
   bool m_has_val;
+  // False while neither a value nor an error has been constructed
+  bool m_is_init = true;
 };
 
 // T is trivial, E is not.
@@ -561,7 +567,7 @@ template <class T, class E>
 struct expected_storage_base<T, E, true, false> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   TRAJOPT_EXPECTED_MSVC2015_CONSTEXPR expected_storage_base(no_init_t)
-      : m_no_init(), m_has_val(false) {}
+      : m_no_init(), m_has_val(false), m_is_init(false) {}
 
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args&&...>::value>* =
@@ -590,7 +596,7 @@ struct expected_storage_base<T, E, true, false> {
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
   ~expected_storage_base() {
-    if (!m_has_val) {
+    if (!m_has_val && m_is_init) {
       m_unexpect.~unexpected<E>();
     }
   }
@@ -601,13 +607,16 @@ struct expected_storage_base<T, E, true, false> {
     char m_no_init;
   };
   bool m_has_val;
+  // False while neither a value nor an error has been constructed
+  bool m_is_init = true;
 };
 
 // E is trivial, T is not.
 template <class T, class E>
 struct expected_storage_base<T, E, false, true> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
-  constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
+  constexpr expected_storage_base(no_init_t)
+      : m_no_init(), m_has_val(false), m_is_init(false) {}
 
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args&&...>::value>* =
@@ -646,6 +655,8 @@ struct expected_storage_base<T, E, false, true> {
     char m_no_init;
   };
   bool m_has_val;
+  // False while neither a value nor an error has been constructed
+  bool m_is_init = true;
 };
 
 // `T` is `void`, `E` is trivially-destructible
@@ -658,7 +669,8 @@ struct expected_storage_base<void, E, false, true> {
 #endif
   expected_storage_base() : m_has_val(true) {}
 
-  constexpr expected_storage_base(no_init_t) : m_val(), m_has_val(false) {}
+  constexpr expected_storage_base(no_init_t)
+      : m_val(), m_has_val(false), m_is_init(false) {}
 
   constexpr expected_storage_base(in_place_t) : m_has_val(true) {}
 
@@ -683,13 +695,16 @@ struct expected_storage_base<void, E, false, true> {
     dummy m_val;
   };
   bool m_has_val;
+  // False while neither a value nor an error has been constructed
+  bool m_is_init = true;
 };
 
 // `T` is `void`, `E` is not trivially-destructible
 template <class E>
 struct expected_storage_base<void, E, false, false> {
   constexpr expected_storage_base() : m_dummy(), m_has_val(true) {}
-  constexpr expected_storage_base(no_init_t) : m_dummy(), m_has_val(false) {}
+  constexpr expected_storage_base(no_init_t)
+      : m_dummy(), m_has_val(false), m_is_init(false) {}
 
   constexpr expected_storage_base(in_place_t) : m_dummy(), m_has_val(true) {}
 
@@ -708,7 +723,7 @@ struct expected_storage_base<void, E, false, false> {
       : m_unexpect(il, std::forward<Args>(args)...), m_has_val(false) {}
 
   ~expected_storage_base() {
-    if (!m_has_val) {
+    if (!m_has_val && m_is_init) {
       m_unexpect.~unexpected<E>();
     }
   }
@@ -718,6 +733,8 @@ struct expected_storage_base<void, E, false, false> {
     char m_dummy;
   };
   bool m_has_val;
+  // False while neither a value nor an error has been constructed
+  bool m_is_init = true;
 };
 
 // This base class provides some handy member functions which can be used in
@@ -727,22 +744,25 @@ struct expected_operations_base : expected_storage_base<T, E> {
   using expected_storage_base<T, E>::expected_storage_base;
 
   template <class... Args>
-  void construct(Args&&... args) noexcept {
+  void construct(Args&&... args) {
     new (std::addressof(this->m_val)) T(std::forward<Args>(args)...);
     this->m_has_val = true;
+    this->m_is_init = true;
   }
 
   template <class Rhs>
-  void construct_with(Rhs&& rhs) noexcept {
+  void construct_with(Rhs&& rhs) {
     new (std::addressof(this->m_val)) T(std::forward<Rhs>(rhs).get());
     this->m_has_val = true;
+    this->m_is_init = true;
   }
 
   template <class... Args>
-  void construct_error(Args&&... args) noexcept {
+  void construct_error(Args&&... args) {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
     this->m_has_val = false;
+    this->m_is_init = true;
   }
 
   // Replaces the error by a value constructed from `args`. If constructing it
@@ -865,6 +885,7 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   template <class... Args>
   void construct() noexcept {
     this->m_has_val = true;
+    this->m_is_init = true;
   }
 
   // This function doesn't use its argument, but needs it so that code in
@@ -872,17 +893,19 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   template <class Rhs>
   void construct_with(Rhs&&) noexcept {
     this->m_has_val = true;
+    this->m_is_init = true;
   }
 
   template <class... Args>
-  void construct_error(Args&&... args) noexcept {
+  void construct_error(Args&&... args) {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
     this->m_has_val = false;
+    this->m_is_init = true;
   }
 
   template <class Rhs>
-  void assign(Rhs&& rhs) noexcept {
+  void assign(Rhs&& rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -972,7 +995,8 @@ struct expected_move_base<T, E, false> : expected_copy_base<T, E> {
   expected_move_base(const expected_move_base& rhs) = default;
 
   expected_move_base(expected_move_base&& rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value)
+      std::is_nothrow_move_constructible<T>::value &&
+      std::is_nothrow_move_constructible<E>::value)
       : expected_copy_base<T, E>(no_init) {
     if (rhs.has_value()) {
       this->construct_with(std::move(rhs));
@@ -1054,7 +1078,9 @@ struct expected_move_assign_base<T, E, false>
   expected_move_assign_base&
   operator=(expected_move_assign_base&& rhs) noexcept(
       std::is_nothrow_move_constructible<T>::value &&
-      std::is_nothrow_move_assignable<T>::value) {
+      std::is_nothrow_move_assignable<T>::value &&
+      std::is_nothrow_move_constructible<E>::value &&
+      std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
-- 
2.43.0


From 457c27e8a9c48f3e221516d9b463dc048e6db68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 11/12] fix: let lines that are only points keep their distance

The distance to a line of no length was 0/0, so polygons that repeat a corner
(to close the outline, for instance) made every generation fail.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 7 +++++++
 include/trajopt/constraint/PointLineConstraint.hpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index afc3e45..ad76ba5 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,6 +61,13 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
+    if (m_robotLineStart.X() == m_robotLineEnd.X() &&
+        m_robotLineStart.Y() == m_robotLineEnd.Y()) {
+      // The line is only one point
+      problem.SubjectTo((lineStart - m_fieldPoint).SquaredNorm() >=
+                        m_minDistance * m_minDistance);
+      return;
+    }
     auto squaredDistance =
         detail::LinePointSquaredDistance(lineStart, lineEnd, m_fieldPoint);
     problem.SubjectTo(squaredDistance >= m_minDistance * m_minDistance);
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 1cbcadf..7313ca3 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,6 +58,13 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
+    if (m_fieldLineStart.X() == m_fieldLineEnd.X() &&
+        m_fieldLineStart.Y() == m_fieldLineEnd.Y()) {
+      // The line is only one point
+      problem.SubjectTo((point - m_fieldLineStart).SquaredNorm() >=
+                        m_minDistance * m_minDistance);
+      return;
+    }
     auto squaredDistance = detail::LinePointSquaredDistance(
         m_fieldLineStart, m_fieldLineEnd, point);
     problem.SubjectTo(squaredDistance >= m_minDistance * m_minDistance);
-- 
2.43.0


From 1569b29a20b8ddbc97f4ba8b7a3ae2cbc0097e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 12/12] fix: do not pose an infinite bound on the time steps

With one module, or with all modules in one place, there is no distance between
modules to bound the time steps with, and the solver gave up at the start.
---
 src/SwerveTrajectoryGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 491e26a..850e340 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -124,6 +124,10 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
     dt.emplace_back(problem.DecisionVariable());
+    if (minWidth == INFINITY) {
+      // No two modules are apart
+      continue;
+    }
     for (auto module : path.drivetrain.modules) {
       problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                             module.wheelMaxAngularVelocity <=
-- 
2.43.0

