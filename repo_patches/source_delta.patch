From a888995ea5b3f58b59adc1258efe69ed47c0cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 01/34] verif hook: bypass pooled allocation under
 SIMU_VERIF_MALLOC

---
 include/Simu/utility/Memory.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index d52c569..f99533b 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -27,6 +27,7 @@
 #include <cstdlib>
 #include <cstddef>
 #include <memory>
+#include <new>
 #include <functional>
 #include <list>
 
@@ -323,6 +324,13 @@ FreeListAllocator<T, sz>::allocate(size_type n)
     if (n == 0)
         return nullptr;
 
+#ifdef SIMU_VERIF_MALLOC
+    // verification builds only: bypass the pool so that sanitizers
+    //  see the lifetime of each allocation.
+    return static_cast<pointer>(
+        ::operator new(n * sizeof(T), std::align_val_t{alignof(T)})
+    );
+#else
     for (auto& block : *blocks_)
     {
         pointer p = block.template allocate<T>(n);
@@ -334,11 +342,15 @@ FreeListAllocator<T, sz>::allocate(size_type n)
 
     blocks_->emplace_back(std::max(sz, allocSize));
     return blocks_->back().template allocate<T>(n);
+#endif
 }
 
 template <class T, std::size_t sz>
 void FreeListAllocator<T, sz>::deallocate(pointer p, size_type n) noexcept
 {
+#ifdef SIMU_VERIF_MALLOC
+    ::operator delete(p, n * sizeof(T), std::align_val_t{alignof(T)});
+#else
     for (auto it = blocks_->begin(); it != blocks_->end(); ++it)
     {
         auto& block = *it;
@@ -350,6 +362,7 @@ void FreeListAllocator<T, sz>::deallocate(pointer p, size_type n) noexcept
             return;
         }
     }
+#endif
 }
 
 
-- 
2.43.0


From 46af20e954a18a2af28850ea2d140a5b4c50a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 02/34] fix: Gjk::separation() returns the shortest vector
 between disjoint shapes

The simplex search used to decide the collision can stop away from the
features closest to each other, and evaluated a null direction for
degenerate simplices (exception).
---
 include/Simu/math/Gjk.inl.hpp | 40 +++++++++++++++--------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 9d18d5a..15c25b0 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -205,34 +205,28 @@ Vec2 Gjk<T>::separation()
     if (areColliding())
         return Vec2{};
 
-    while (true)
+    // a-b is the edge of the Minkowski difference closest to the origin so far.
+    Vertex a       = simplex_.pointStack[0];
+    Vertex b       = a;
+    Vec2   closest = a;
+
+    while (any(closest != Vec2{}))
     {
-        Vec2   dir = simplex_.nextDirection();
-        Vertex v   = furthestVertexInDirection(dir);
+        Vertex v = furthestVertexInDirection(-closest);
+
+        Vec2 onAV = LineBarycentric{a, v, Vec2{}}.closestPoint;
+        Vec2 onBV = LineBarycentric{b, v, Vec2{}}.closestPoint;
 
-        if (simplex_.hasPoint(v))
+        bool keepA = normSquared(onAV) < normSquared(onBV);
+        Vec2 next  = keepA ? onAV : onBV;
+        if (!(normSquared(next) < normSquared(closest)))
             break;
-        else
-            simplex_.pushPoint(v);
-    }
 
-    switch (simplex_.nIterations)
-    {
-        case 1: return -simplex_.pointStack[0];
-        case 2:
-            return -LineBarycentric{
-                simplex_.pointStack[0], simplex_.pointStack[1], Vec2{0, 0}
-            }
-                        .closestPoint;
-        default:
-            return -TriangleBarycentric{
-                simplex_.pointStack[0],
-                simplex_.pointStack[1],
-                simplex_.pointStack[2],
-                Vec2{0.f, 0.f}
-            }
-                        .closestPoint;
+        (keepA ? b : a) = v;
+        closest         = next;
     }
+
+    return -closest;
 }
 
 template <Geometry T>
-- 
2.43.0


From d121144b3c3cce451cd5399ce4f15cee8267b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 03/34] fix: Gjk::penetration() of shapes touching at a vertex

A simplex with repeated vertices gave an edge of null length, whose null
normal was used as a search direction (exception).
---
 include/Simu/math/Gjk.inl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 15c25b0..25dce16 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -127,9 +127,12 @@ Polytope::Polytope(const Simplex& simplex)
     Vertex second = simplex.pointStack[1];
     Vertex third  = simplex.pointStack[2];
 
+    // A degenerate simplex repeats vertices, edges must not have a null length.
     vertices.emplace_back(first);
-    vertices.emplace_back(second);
-    vertices.emplace_back(third);
+    if (any(second != first))
+        vertices.emplace_back(second);
+    if (any(third != first) && any(third != second))
+        vertices.emplace_back(third);
 
     if (orientation(first, second, third, 0.f) == Orientation::negative)
         std::reverse(vertices.begin(), vertices.end());
@@ -253,6 +256,10 @@ Vec2 Gjk<T>::penetration() const
             }
         }
 
+        // a single vertex, the origin is on it.
+        if (all(best.from() == best.to()))
+            return best.from();
+
         Vertex next = furthestVertexInDirection(best.normal());
 
         if (!polytope.addVertex(best, next))
-- 
2.43.0


From 36b06042533aa3cca7edc8f07a7b56fb6df736df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 04/34] fix: Interval::overlaps() is exact and symmetric to
 containment

Rounded sums of the bounds reported touching or nested intervals as
disjoint, and degenerate intervals as overlapping.
---
 include/Simu/math/Interval.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/include/Simu/math/Interval.hpp b/include/Simu/math/Interval.hpp
index fdcb49d..98d8726 100644
--- a/include/Simu/math/Interval.hpp
+++ b/include/Simu/math/Interval.hpp
@@ -55,22 +55,9 @@ public:
 
     auto overlaps(const Interval& other) const
     {
-        // divisions by 2 can be factorised out and removed from both sides.
-        // Geometrical interpretation is easier with:
-        //
-        // span = (max - min)/2 + (other.max - other.min)/2
-        //      is the sum of half widths
-        //
-        // dist = std::abs((max_ + min_)/2 - (other.max_ + other.min_)/2)
-        //      is the absolute distance between midpoints.
-        //
-        // we have intersection if
-        // dist <= span, or equivalently if 2*dist <= 2*span to remove divisions
-
-        T span = (max_ - min_) + (other.max_ - other.min_);
-        T dist = std::abs((max_ + min_) - (other.max_ + other.min_));
-
-        return dist <= span;
+        // comparing the bounds themselves is exact, sums of them would be rounded.
+        return min_ <= max_ && other.min_ <= other.max_ && min_ <= other.max_
+               && other.min_ <= max_;
     }
 
 private:
-- 
2.43.0


From 740bb0613b86e2d7f33e90a734621fec49f15c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 05/34] fix: a BoundingBox of an empty range is invalid

Its corners were left uninitialised.
---
 include/Simu/physics/BoundingBox.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Simu/physics/BoundingBox.hpp b/include/Simu/physics/BoundingBox.hpp
index 391be1a..9421ca0 100644
--- a/include/Simu/physics/BoundingBox.hpp
+++ b/include/Simu/physics/BoundingBox.hpp
@@ -129,6 +129,7 @@ private:
 
 template <VertexIterator2D It>
 BoundingBox::BoundingBox(It begin, It end)
+    : BoundingBox{}
 {
     if (begin == end)
         return;
-- 
2.43.0


From 9b032da8a07013d7895e79ce5374fa500c6cbd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 06/34] verif hook: unsized deallocation under
 SIMU_VERIF_MALLOC

---
 include/Simu/utility/Memory.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index f99533b..2aa99b6 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -349,7 +349,8 @@ template <class T, std::size_t sz>
 void FreeListAllocator<T, sz>::deallocate(pointer p, size_type n) noexcept
 {
 #ifdef SIMU_VERIF_MALLOC
-    ::operator delete(p, n * sizeof(T), std::align_val_t{alignof(T)});
+    (void)n;
+    ::operator delete(static_cast<void*>(p), std::align_val_t{alignof(T)});
 #else
     for (auto it = blocks_->begin(); it != blocks_->end(); ++it)
     {
-- 
2.43.0


From 4d587809f6a3851865f742d2e8dee44733219b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 07/34] fix: Gjk decides the collision consistently when the
 origin is almost on a simplex edge

The side of the origin relative to a shared edge was evaluated differently
by consecutive simplices: rounding could lead the search away from the
origin and miss deep collisions, or to circle around it.
---
 include/Simu/math/Gjk.hpp     |  4 ++++
 include/Simu/math/Gjk.inl.hpp | 24 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/Simu/math/Gjk.hpp b/include/Simu/math/Gjk.hpp
index 9b9f9dc..67001d8 100644
--- a/include/Simu/math/Gjk.hpp
+++ b/include/Simu/math/Gjk.hpp
@@ -50,6 +50,10 @@ struct Simplex
     // respectively, updated on pushPoint once there are 3 valid vertices
     std::array<Vec2, 3> normals{};
 
+    // signed distances of the edges to the origin, scaled by their length,
+    // negative if the origin is on the outer side. Same order as normals.
+    std::array<float, 3> distance{};
+
     Vec2   initialSearchDir_;
     Uint32 nIterations = 0;
 
diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 25dce16..6335421 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -61,6 +61,13 @@ void Simplex::pushPoint(Vertex v)
     normals[1] = perp(ca, positivelyOriented);
     normals[2] = perp(bc, positivelyOriented);
 
+    // Unlike dot(vertex, normal), the sign of cross(from, to) is the same for
+    //  every triangle sharing the edge even when the origin is almost on it.
+    float sign  = positivelyOriented ? 1.f : -1.f;
+    distance[0] = sign * cross(pointStack[0], pointStack[1]);
+    distance[1] = sign * cross(pointStack[2], pointStack[0]);
+    distance[2] = sign * cross(pointStack[1], pointStack[2]);
+
     ++nIterations;
 }
 
@@ -90,8 +97,8 @@ Vec2 Simplex::nextDirection() const
         }
         default:
         {
-            bool norm1TowardsOrigin = dot(normals[0], pointStack[0]) < 0;
-            // bool norm2TowardsOrigin = dot(normals[1], pointStack[0]) < 0;
+            bool norm1TowardsOrigin = distance[0] < 0;
+            // bool norm2TowardsOrigin = distance[1] < 0;
 
             if (norm1TowardsOrigin)
                 return normals[0];
@@ -115,9 +122,7 @@ bool Simplex::hasPoint(Vertex v) const
 
 bool Simplex::containsOrigin() const
 {
-    return dot(pointStack[0], normals[0]) >= 0.f
-           && dot(pointStack[0], normals[1]) >= 0.f
-           && dot(pointStack[1], normals[2]) >= 0.f;
+    return distance[0] >= 0.f && distance[1] >= 0.f && distance[2] >= 0.f;
 }
 
 
@@ -172,8 +177,17 @@ template <Geometry T>
 Gjk<T>::Gjk(const T& first, const T& second, Vec2 initialDir)
     : first_{first}, second_{second}, simplex_{initialDir}
 {
+    // Only rounding, when the origin is on the border of the difference, can
+    //  make the search go around it indefinitely.
+    const auto maxIterations = 2
+                               * (std::distance(first.begin(), first.end())
+                                  + std::distance(second.begin(), second.end()));
+
     while (!done_)
     {
+        if (simplex_.nIterations >= maxIterations)
+            break;
+
         Vec2 direction = simplex_.nextDirection();
 
         Vertex v = furthestVertexInDirection(direction);
-- 
2.43.0


From c1243d18dceed7f20d29e36168b87112cb752e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 08/34] fix: Gjk::penetration() ignores vertices that are
 outside by rounding only

Such a vertex can be anywhere along the edge, even beyond its ends, and
folded the polytope: the result was then shorter than the penetration.
---
 include/Simu/math/Gjk.inl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 6335421..ff4cb36 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -145,7 +145,14 @@ Polytope::Polytope(const Simplex& simplex)
 
 bool Polytope::addVertex(const Edge& where, Vertex v)
 {
-    if (where.isOutside(v))
+    // A vertex that is outside only because of rounding may be anywhere along
+    //  the edge: adding it could fold the polytope on itself.
+    constexpr float tolerance = 4.f * EPSILON;
+
+    float gain     = dot(where.normal(), v - where.to());
+    float rounding = tolerance * norm(where.normal()) * (norm(v) + norm(where.to()));
+
+    if (gain > rounding)
     {
         // this is not ideal, but prevents almost collinear edges from
         //  putting us in an infinite loop:
-- 
2.43.0


From 7e9116d5fd89b4cadea9dfa6203e63ee6f11f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 09/34] fix: RTree's move constructor leaves a valid tree
 behind

It swapped with an uninitialised root, which the moved-from tree then deleted.
---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..f7fa60a 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -76,7 +76,7 @@ public:
     RTree(const RTree& other)            = delete;
     RTree& operator=(const RTree& other) = delete;
 
-    RTree(RTree&& other) noexcept { *this = std::move(other); }
+    RTree(RTree&& other) noexcept : RTree{} { *this = std::move(other); }
     RTree& operator=(RTree&& other) noexcept
     {
         std::swap(alloc_, other.alloc_);
-- 
2.43.0


From fba4979affab68cecb626636d06526831afbdc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 10/34] fix: RTree accepts boxes whose area overflows

Every cost is then infinite and no insertion point was chosen (null pointer).
---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index f7fa60a..6c95c05 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -430,7 +430,7 @@ private:
         std::priority_queue<NodeCost, std::vector<NodeCost>, NodeCostCmp> queue{};
         queue.emplace(root_, 0.f);
 
-        NodeCost best = {nullptr, INFINITY};
+        NodeCost best = {root_, INFINITY};
         while (!queue.empty())
         {
             NodeCost current = queue.top();
-- 
2.43.0


From ee9b2d2857b3c09bdf4e40ad02db5102136b0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 11/34] fix: makeUnique() deletes the object it made

The deleter was given a pointer to a base of the object once converted,
which is another address unless it is the first base.
---
 include/Simu/utility/Memory.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 2aa99b6..8245f05 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -54,13 +54,14 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
     typedef ReboundTo<Alloc, T> A;
     A                           a{alloc};
 
-    Deleter d = [=](void* obj) mutable {
-        T* typed = static_cast<T*>(obj);
-        std::allocator_traits<A>::destroy(a, typed);
-        std::allocator_traits<A>::deallocate(a, typed, 1);
+    T* obj = std::allocator_traits<A>::allocate(a, 1);
+
+    // the deleter can be given a pointer to any base of obj
+    Deleter d = [=](void*) mutable {
+        std::allocator_traits<A>::destroy(a, obj);
+        std::allocator_traits<A>::deallocate(a, obj, 1);
     };
 
-    T* obj = std::allocator_traits<A>::allocate(a, 1);
     std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
     return {obj, d};
 }
-- 
2.43.0


From fdddfdbcc74a668b14d653a2afc3e7c0aaf1ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 12/34] fix: makeUnique() releases its memory if the
 constructor throws

---
 include/Simu/utility/Memory.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 8245f05..f9cb622 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -62,7 +62,16 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
         std::allocator_traits<A>::deallocate(a, obj, 1);
     };
 
-    std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    try
+    {
+        std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    }
+    catch (...)
+    {
+        std::allocator_traits<A>::deallocate(a, obj, 1);
+        throw;
+    }
+
     return {obj, d};
 }
 
-- 
2.43.0


From 573d01b0917e6f85b358a8fb87dde4c90e2da225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 13/34] fix: a Body does not iterate over the colliders it is
 removing when destroyed

---
 include/Simu/physics/Body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..7c9988c 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -216,8 +216,8 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        while (!colliders_.isEmpty())
+            removeCollider(&colliders_.colliders_.front());
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From a87a6466dfcfb37882528f91e62f79681716bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 14/34] fix: touching structural bodies do not make a contact
 that cannot be solved

---
 src/Simu/physics/World.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..398af3f 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -290,7 +290,7 @@ void World::updateBodies(float dt)
 
         const Body* b0 = colliders[0]->body();
         const Body* b1 = colliders[1]->body();
-        if (b0 == b1)
+        if (b0 == b1 || (b0->isStructural() && b1->isStructural()))
             return;
 
         for (Constraint* c : b0->constraints())
-- 
2.43.0


From b0a4c7a52e134213d134def18c2fa98690652ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 15/34] fix: bodies forget their contacts when the contact
 factory is replaced

---
 include/Simu/physics/World.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..1b35b7f 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -138,6 +138,9 @@ public:
 
     void setContactFactory(ContactFactory makeContact)
     {
+        for (auto& body : bodies_)
+            body->contacts_.clear();
+
         contacts_.clear();
         makeContactConstraint_ = makeContact;
     }
-- 
2.43.0


From c433043ed915561dc626820975218dda910d0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 16/34] fix: a Collider with invalid mass properties is not
 added to its Body

---
 include/Simu/physics/Collider.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index eddb1b8..a025d34 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -216,10 +216,11 @@ public:
 
     Collider* add(const ColliderDescriptor& descr, Body* owner)
     {
-        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        // throws if the descriptor is invalid, nothing must be added
+        MassProperties p{descr.polygon, descr.material.density};
 
-        MassProperties p = colliders_.back().properties();
-        properties_      = properties_ + p;
+        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        properties_ = properties_ + p;
 
         return &colliders_.back();
     }
-- 
2.43.0


From b833e670bade7bb2a8be7a1b3b5e86ce1a975c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 17/34] fix: DistanceConstraint can be used with only a minimal
 distance

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From 7fa09956af851f136f7a5c5e428962aa268f1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 18/34] fix: changing the Colliders of a spinning Body moves
 its velocity to the new centroid

---
 include/Simu/physics/Body.hpp |  4 ++++
 src/Simu/physics/Body.cpp     | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index 7c9988c..db8a9e6 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -389,6 +389,10 @@ private:
 
     void update() { colliders_.update(toWorldSpace()); }
 
+    // velocity difference between the center of mass of the current Colliders
+    //  and the one for which the Body's velocity is given.
+    Vec2 dvAtNewCentroid() const;
+
     bool isImmobile(float velocityTreshold, float angularVelocityTreshold) const
     {
         return normSquared(velocity()) < velocityTreshold * velocityTreshold
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..ba4ca70 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -45,15 +45,15 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 {
     SIMU_ASSERT(world_ != nullptr, "Body must be owned by a World");
 
-    Vec2 oldCentroid = centroid();
+    bool isFirstCollider = colliders_.isEmpty();
 
     Collider* c = colliders_.add(descriptor, this);
 
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
-    Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
-    setVelocity(velocity() + dvAtCentroid);
+    if (!isFirstCollider)
+        setVelocity(velocity() + dvAtNewCentroid());
     position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
@@ -64,8 +64,6 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 
 void Body::removeCollider(Collider* collider)
 {
-    Vec2 oldCentroid = centroid();
-
     world_->removeCollider(collider);
     colliders_.remove(collider);
     if (colliders_.isEmpty())
@@ -75,11 +73,18 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
-    Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
-    setVelocity(velocity() + dvAtCentroid);
+    setVelocity(velocity() + dvAtNewCentroid());
     position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
 }
 
+Vec2 Body::dvAtNewCentroid() const
+{
+    Vec2 toNewCentroid = toWorldSpace().rotation()
+                         * (colliders_.properties().centroid - localCentroid());
+
+    return angularVelocity() * perp(toNewCentroid);
+}
+
 } // namespace simu
-- 
2.43.0


From f0a9c4986d691a301f04daf4d23ff322fdb9b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 19/34] fix: constraints use the current mass of their bodies

---
 include/Simu/physics/Bodies.hpp     |  7 +++++--
 include/Simu/physics/Bodies.inl.hpp | 19 ++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/Simu/physics/Bodies.hpp b/include/Simu/physics/Bodies.hpp
index 11baef7..1140b64 100644
--- a/include/Simu/physics/Bodies.hpp
+++ b/include/Simu/physics/Bodies.hpp
@@ -242,10 +242,13 @@ private:
         proxies_ = Proxies{
             SolverProxy{ps + index0, vs + index0},
             SolverProxy{ps + index1, vs + index1},
-            invMasses_
+            invMasses()
         };
     }
 
+    // The mass of a Body changes with its Colliders.
+    inline InvMasses invMasses() const;
+
     void endSolve() { proxies_ = Proxies{}; }
 
     bool hasProxies() const { return proxies_[0].position_ != nullptr; }
@@ -260,7 +263,7 @@ private:
 
     Proxies proxies_{};
 
-    InvMasses invMasses_;
+    Dominance dominances_;
 };
 
 
diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index f564d19..e2c985c 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -84,24 +84,29 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
         bodies_[i++] = body;
     }
 
-    Dominance d = dominances.value_or(
+    dominances_ = dominances.value_or(
         Vec2{bodies_[0]->dominance(), bodies_[1]->dominance()}
     );
+}
+
 
-    invMasses_.m0 = d[0] * bodies_[0]->invMass();
-    invMasses_.I0 = d[0] * bodies_[0]->invInertia();
-    invMasses_.m1 = d[1] * bodies_[1]->invMass();
-    invMasses_.I1 = d[1] * bodies_[1]->invInertia();
+InvMasses Bodies::invMasses() const
+{
+    return InvMasses{
+        dominances_[0] * bodies_[0]->invMass(),
+        dominances_[0] * bodies_[0]->invInertia(),
+        dominances_[1] * bodies_[1]->invMass(),
+        dominances_[1] * bodies_[1]->invInertia()};
 }
 
 
 bool Bodies::isBodyStructural(const Body* body) const
 {
     if (body == bodies_[0])
-        return invMasses_.m0 == 0.f;
+        return dominances_[0] == 0.f;
 
     if (body == bodies_[1])
-        return invMasses_.m1 == 0.f;
+        return dominances_[1] == 0.f;
 
     SIMU_ASSERT(false, "Body is not part of these bodies.");
     return true;
-- 
2.43.0


From 7a54c753cafc1d67118951d69cd4479f7271a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 20/34] fix: motors only push along their direction, up to
 their speed in that direction

---
 include/Simu/physics/Motors.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/Simu/physics/Motors.hpp b/include/Simu/physics/Motors.hpp
index 76d7451..dae6503 100644
--- a/include/Simu/physics/Motors.hpp
+++ b/include/Simu/physics/Motors.hpp
@@ -55,16 +55,10 @@ public:
 
     Value clampLambda(Value lambda, float dt) const
     {
-        Value maxImpulse = direction_ * throttle_ * maxForce_ * dt;
+        // only act along the direction, whatever its orientation.
+        float maxImpulse = throttle_ * maxForce_ * dt;
 
-        Uint32 i = 0;
-        for (auto& l : lambda)
-        {
-            auto bound = maxImpulse[i++];
-            l = (bound < 0) ? clamp(l, bound, 0.f) : clamp(l, 0.f, bound);
-        }
-
-        return lambda;
+        return direction_ * clamp(dot(lambda, direction_), 0.f, maxImpulse);
     }
 
     Value clampPositionLambda(Value /* lambda */) const { return Value{}; }
-- 
2.43.0


From 42aa455d54a72d18e05a5e741b566783e3e25781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 21/34] fix: the world's index follows colliders displaced by a
 change of centroid

---
 include/Simu/physics/World.hpp | 5 +++++
 src/Simu/physics/Body.cpp      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 1b35b7f..6dd9504 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -338,6 +338,11 @@ private:
         );
     }
 
+    void updateCollider(Collider* collider)
+    {
+        colliderTree_.update(collider->treeLocation_, collider->boundingBox());
+    }
+
     void removeCollider(Collider* collider);
 
     UniquePtr<ContactConstraint>
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index ba4ca70..54386d8 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -57,6 +57,9 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
+    for (Collider& other : colliders_.colliders_)
+        if (&other != c)
+            world_->updateCollider(&other);
     world_->addCollider(c);
 
     return c;
@@ -77,6 +80,8 @@ void Body::removeCollider(Collider* collider)
     position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
+    for (Collider& other : colliders_.colliders_)
+        world_->updateCollider(&other);
 }
 
 Vec2 Body::dvAtNewCentroid() const
-- 
2.43.0


From d73d80d39869d5c5c0afb4f7a4fe1f764e511fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 22/34] fix: redundant contact points do not make a step throw

---
 include/Simu/math/Matrix.inl.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index b152174..330a3a4 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -547,9 +547,16 @@ public:
     template <class U>
     Vector<Promoted<T, U>, 2> solve(const Vector<U, 2>& b) const
     {
-        Vector<T, 2> x = solver.solve(b);
-        if (all(x >= Vector<T, 2>::filled(0.f)))
-            return x;
+        Vector<T, 2> x{};
+
+        // Only this case needs an invertible matrix. When the rows are parallel
+        //  (redundant constraints), one of them can be solved alone.
+        if (solver.isValid())
+        {
+            x = solver.solve(b);
+            if (all(x >= Vector<T, 2>::filled(0.f)))
+                return x;
+        }
 
         x = Vector<T, 2>{b[0] * invA11, 0.f};
         if ((x[0] >= 0.f) && (x[0] * solver.A_(1, 0) - b[1] >= 0))
-- 
2.43.0


From ca39865b78aa581ff35366848d2c8e66a2ffd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:39 +0000
Subject: [PATCH 23/34] fix: a structural body needs no collider to hold a
 joint

---
 include/Simu/physics/Bodies.inl.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index e2c985c..755ec3f 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -92,11 +92,16 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
 
 InvMasses Bodies::invMasses() const
 {
+    // a structural Body has an infinite mass, even if it has no Collider.
+    auto scaled = [](float dominance, float inverse) {
+        return dominance == 0.f ? 0.f : dominance * inverse;
+    };
+
     return InvMasses{
-        dominances_[0] * bodies_[0]->invMass(),
-        dominances_[0] * bodies_[0]->invInertia(),
-        dominances_[1] * bodies_[1]->invMass(),
-        dominances_[1] * bodies_[1]->invInertia()};
+        scaled(dominances_[0], bodies_[0]->invMass()),
+        scaled(dominances_[0], bodies_[0]->invInertia()),
+        scaled(dominances_[1], bodies_[1]->invMass()),
+        scaled(dominances_[1], bodies_[1]->invInertia())};
 }
 
 
-- 
2.43.0


From aa1e27c1346ee22a1674f0259ca2220314d3eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 24/34] fix: a constraint is active or not for the whole step

---
 include/Simu/physics/Island.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 09f42f0..557b763 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -43,6 +43,7 @@ public:
         : bodies_{alloc},
           constraints_{alloc},
           contacts_{alloc},
+          inactive_{alloc},
           positions_{alloc},
           velocities_{alloc}
     {
@@ -84,6 +85,17 @@ public:
         velocities_.clear();
     }
 
+    // Constraints that were found to be inactive are not considered by any island
+    //  until this is called. Otherwise, they could become active when only one of
+    //  their bodies has moved, which would then be solved twice.
+    void releaseInactiveConstraints()
+    {
+        for (Constraint* c : inactive_)
+            c->bodies().endSolve();
+
+        inactive_.clear();
+    }
+
     bool hasConstraints()
     {
         return !(constraints_.empty() && contacts_.empty());
@@ -217,7 +229,7 @@ private:
 
         constraint->bodies().startSolve(positions_.data(), velocities_.data());
 
-        // TODO: Must be called **exactly** once per constraint.
+        // Called exactly once per constraint.
         if (!constraint->isActive(constraint->bodies().getProxies()))
         {
             if (added2)
@@ -236,7 +248,7 @@ private:
                 velocities_.pop_back();
             }
 
-            constraint->bodies().endSolve();
+            inactive_.emplace_back(constraint);
             container.pop_back();
             return false;
         }
@@ -247,6 +259,7 @@ private:
     std::vector<Body*, ReboundTo<Alloc, Body*>>             bodies_;
     std::vector<Constraint*, ReboundTo<Alloc, Constraint*>> constraints_;
     std::vector<ContactConstraint*, ReboundTo<Alloc, ContactConstraint*>> contacts_;
+    std::vector<Constraint*, ReboundTo<Alloc, Constraint*>> inactive_;
 
     std::vector<Position, ReboundTo<Alloc, Position>> positions_;
     std::vector<Velocity, ReboundTo<Alloc, Velocity>> velocities_;
@@ -328,6 +341,8 @@ void solveIslands(const T& bodies, const Alloc& alloc, World::Settings s, float
         island.clear();
     }
 
+    island.releaseInactiveConstraints();
+
     SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.islandConstruction);
     SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.solveVelocities);
     SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.solvePositions);
-- 
2.43.0


From 8ea0d5c9973abc718362de2f56819162a13819ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 25/34] fix: call onDestruction on contacts when a step removes
 them

---
 src/Simu/physics/World.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 398af3f..bbdccef 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -223,7 +223,8 @@ void World::removeCollider(Collider* collider)
 
 void World::cleanup()
 {
-    for (auto it = contacts_.begin(); it != contacts_.end();)
+    std::vector<ContactList::iterator> deadContacts;
+    for (auto it = contacts_.begin(); it != contacts_.end(); ++it)
     {
         ContactConstraint* contact = it->second.existingContact.get();
         if (contact != nullptr && contact->isDead())
@@ -234,11 +235,7 @@ void World::cleanup()
                 b->wake();
             }
 
-            it = contacts_.erase(it);
-        }
-        else
-        {
-            ++it;
+            deadContacts.emplace_back(it);
         }
     }
 
@@ -258,10 +255,13 @@ void World::cleanup()
         }
     }
 
+    for (auto it : deadContacts)
+        it->second.existingContact->onDestruction(*this);
     cleaner.onDestruction(*this, deadConstraints);
     cleaner.onDestruction(*this, deadForces);
     cleaner.onDestruction(*this, deadBodies);
 
+    cleaner.erase(contacts_, deadContacts);
     cleaner.erase(constraints_, deadConstraints);
     cleaner.erase(forces_, deadForces);
     cleaner.erase(bodies_, deadBodies);
-- 
2.43.0


From 73d56623877cf8b6c5b5a5d2f2a010c8e854ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 26/34] fix: contacts of a collider removed during a step are
 no longer touched

---
 src/Simu/physics/World.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index bbdccef..cb82716 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -67,8 +67,10 @@ void World::step(float dt)
     {
         SIMU_PROFILE_ENTRY(profiler_.narrowPhaseCollision);
 
+        // contacts killed by the callbacks above may have lost a Collider.
         for (auto& c : contacts_)
-            if (c.second.existingContact != nullptr)
+            if (c.second.existingContact != nullptr
+                && !c.second.existingContact->killed_)
                 c.second.existingContact.get()->preStep();
     }
 
@@ -213,11 +215,19 @@ void World::removeCollider(Collider* collider)
 {
     colliderTree_.erase(collider->treeLocation_);
 
-    Body* b = collider->body();
-    for (ContactConstraint* c : b->contacts_)
-    {
+    std::vector<ContactConstraint*> removed;
+    for (ContactConstraint* c : collider->body()->contacts_)
         if (c->colliders()[0] == collider || c->colliders()[1] == collider)
-            c->kill();
+            removed.emplace_back(c);
+
+    // The collider may be removed during a step, from a callback:
+    //  the bodies must not be solved with these contacts.
+    for (ContactConstraint* c : removed)
+    {
+        for (Body* b : c->bodies())
+            std::erase(b->contacts_, c);
+
+        c->kill();
     }
 }
 
-- 
2.43.0


From 16c41657e3ea45de0e778d2efdf242e5123e1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 27/34] fix: overlapping shapes always have a contact point

The ends of the incident edge were moved to the end nearest to the
intersection with the neighbor of the reference edge, even when that end
was not on its inner side.
---
 include/Simu/physics/ContactManifold.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/ContactManifold.hpp b/include/Simu/physics/ContactManifold.hpp
index ef76c5a..5cf185c 100644
--- a/include/Simu/physics/ContactManifold.hpp
+++ b/include/Simu/physics/ContactManifold.hpp
@@ -224,11 +224,19 @@ private:
 
         Vec2 n = -contactNormal_;
 
-        Vertex contact1 = contactEdges[inc].clipInside(previousOfRef);
+        // The incident edge runs opposite to the reference edge. Only an end that
+        //  is past a neighbor of the reference edge is clipped.
+        Edge incEdge = contactEdges[inc];
+
+        Vertex contact1 = previousOfRef.isInside(incEdge.to())
+                              ? Vertex{incEdge.to()}
+                              : incEdge.clipInside(previousOfRef);
         if (dot(contact1 - contactEdges[ref].from(), n) >= 0.f)
             contacts_[inc][nContacts_++] = contact1;
 
-        Vertex contact2 = contactEdges[inc].clipInside(nextOfRef);
+        Vertex contact2 = nextOfRef.isInside(incEdge.from())
+                              ? Vertex{incEdge.from()}
+                              : incEdge.clipInside(nextOfRef);
         if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f)
         {
             contacts_[inc][nContacts_++] = contact2;
-- 
2.43.0


From a850abdbd44b5952151480efd6309393a2fe0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 28/34] fix: nearly redundant contact points keep pushing

When rounding defeated every case of the complementarity problem, it was
solved by pushing on neither point, and nearly singular problems were
solved by their rounding errors.
---
 include/Simu/math/Matrix.inl.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index 330a3a4..0a60886 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -541,7 +541,10 @@ public:
     LcpSolver(const Matrix<T, 2, 2>& A)
         : solver{A}, invA11{1.f / A(0, 0)}, invA22{1.f / A(1, 1)}
     {
-        solver.isValid_ = solver.isValid() && A(0, 0) != 0.f && A(1, 1) != 0.f;
+        // Nearly parallel rows are not worth inverting, the result would be mostly rounding.
+        const T det = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
+        solver.isValid_ = solver.isValid() && A(0, 0) != 0.f && A(1, 1) != 0.f
+                          && std::abs(det) > std::abs(1e-5f * A(0, 0) * A(1, 1));
     }
 
     template <class U>
@@ -570,6 +573,15 @@ public:
         if (all(-b >= Vector<T, 2>::filled(0.f)))
             return x;
 
+        // With nearly parallel rows, rounding can defeat each of the above cases.
+        //  The one that is closest to hold is taken.
+        const T x0 = b[0] * invA11;
+        const T x1 = b[1] * invA22;
+        if (x0 > 0 && (x1 <= 0 || x0 * solver.A_(1, 0) - b[1] >= x1 * solver.A_(0, 1) - b[0]))
+            return Vector<T, 2>{x0, 0.f};
+        if (x1 > 0)
+            return Vector<T, 2>{0.f, x1};
+
         return x; // all null
     }
 
-- 
2.43.0


From af7af42ab31d00265f6fe8d2663dcb5f076bf1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:27 +0000
Subject: [PATCH 29/34] fix: points of more than 255 corners are drawn instead
 of looping forever

---
 src/Simu/app/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 7ef4073..083aab0 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -116,7 +116,7 @@ void Renderer::drawPoint(Vec2 P, Rgba color)
 {
     v_.clear();
 
-    for (Uint8 i = 0; i < getPointPrecision(); ++i)
+    for (Uint32 i = 0; i < getPointPrecision(); ++i)
     {
         v_.emplace_back(P + pointOffsets_[i]);
     }
-- 
2.43.0


From 3423aa9abfecc1481afe47a74a0808c1820944da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:27 +0000
Subject: [PATCH 30/34] fix: a slack distance joint whose ends coincide can be
 drawn

---
 include/Simu/app/VisiblePhysics.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Simu/app/VisiblePhysics.hpp b/include/Simu/app/VisiblePhysics.hpp
index 5a919d8..420d71e 100644
--- a/include/Simu/app/VisiblePhysics.hpp
+++ b/include/Simu/app/VisiblePhysics.hpp
@@ -196,11 +196,11 @@ protected:
 
         auto points = f.localFixedPoints();
 
-        renderer.drawLine(
-            bodies()[0]->toWorldSpace() * points[0],
-            bodies()[1]->toWorldSpace() * points[1],
-            turquoise
-        );
+        Vec2 from = bodies()[0]->toWorldSpace() * points[0];
+        Vec2 to   = bodies()[1]->toWorldSpace() * points[1];
+
+        if (any(from != to))
+            renderer.drawLine(from, to, turquoise);
     }
 };
 
-- 
2.43.0


From c9639ba0cc0f4a8b377b3a9aa8efc10cbcf8e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:27 +0000
Subject: [PATCH 31/34] fix: scrolling zooms by one step per notch instead of
 by the scrolled amount

---
 src/Simu/app/Scene.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Simu/app/Scene.cpp b/src/Simu/app/Scene.cpp
index 6b78987..3093cc5 100644
--- a/src/Simu/app/Scene.cpp
+++ b/src/Simu/app/Scene.cpp
@@ -109,8 +109,7 @@ bool Scene::onKeypress(Keyboard::Input input)
 
 bool Scene::onMouseScroll(Vec2 scroll)
 {
-    float zoomRatio = (scroll[1] < 0.f) ? 4.f / 5.f : 5.f / 4.f;
-    camera().setZoom(camera().zoom() * std::abs(scroll[1]) * zoomRatio);
+    camera().setZoom(camera().zoom() * std::pow(5.f / 4.f, scroll[1]));
     return true;
 }
 
-- 
2.43.0


From 086533bafacaa703d22072820d0cdb708fd71a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:27 +0000
Subject: [PATCH 32/34] fix: the grabber forgets its constraint when the world
 destroys it

---
 include/Simu/app/Tool.hpp | 10 ++++++--
 src/Simu/app/Tool.cpp     | 50 +++++++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/include/Simu/app/Tool.hpp b/include/Simu/app/Tool.hpp
index ab694b5..11822b9 100644
--- a/include/Simu/app/Tool.hpp
+++ b/include/Simu/app/Tool.hpp
@@ -24,6 +24,8 @@
 
 #pragma once
 
+#include <memory>
+
 #include "Simu/app/Event.hpp"
 #include "Simu/app/VisiblePhysics.hpp"
 
@@ -91,8 +93,12 @@ private:
 
     VisibleMouseConstraint* makeMouseConstraint(Body* b, Vec2 pos);
 
-    VisibleMouseConstraint* mc_ = nullptr;
-    Scene&                  scene_;
+    // The world may destroy the constraint at any time (its Body dies or the scene is reset),
+    //  in which case the constraint clears this.
+    std::shared_ptr<VisibleMouseConstraint*> mc_
+        = std::make_shared<VisibleMouseConstraint*>(nullptr);
+
+    Scene& scene_;
 };
 
 
diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index 0602932..1174748 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -35,6 +35,36 @@ namespace simu
 ////////////////////////////////////////////////////////////
 // Grabber
 ////////////////////////////////////////////////////////////
+namespace
+{
+
+class GrabConstraint : public VisibleMouseConstraint
+{
+public:
+
+    GrabConstraint(
+        Body*                                    body,
+        Vec2                                     pos,
+        Renderer*                                renderer,
+        std::shared_ptr<VisibleMouseConstraint*> holder
+    )
+        : VisibleMouseConstraint{body, pos, renderer}, holder_{std::move(holder)}
+    {
+    }
+
+    ~GrabConstraint() override
+    {
+        if (*holder_ == this)
+            *holder_ = nullptr;
+    }
+
+private:
+
+    std::shared_ptr<VisibleMouseConstraint*> holder_;
+};
+
+} // namespace
+
 
 bool Grabber::onMousePress(Mouse::Input input)
 {
@@ -46,19 +76,19 @@ bool Grabber::onMousePress(Mouse::Input input)
         scene_.world().forEachAt(input.pos, [&, this](Body* b) {
             if (!b->isStructural())
             {
-                if (mc_ != nullptr)
-                    mc_->kill();
+                if (*mc_ != nullptr)
+                    (*mc_)->kill();
 
-                mc_ = this->makeMouseConstraint(b, input.pos);
+                *mc_ = this->makeMouseConstraint(b, input.pos);
             }
         });
     }
     else if (input.action == Mouse::Action::release)
     {
-        if (mc_ != nullptr)
+        if (*mc_ != nullptr)
         {
-            mc_->kill();
-            mc_ = nullptr;
+            (*mc_)->kill();
+            *mc_ = nullptr;
         }
     }
     else
@@ -71,9 +101,9 @@ bool Grabber::onMousePress(Mouse::Input input)
 
 bool Grabber::onMouseMove(Vec2 pos)
 {
-    if (mc_ != nullptr)
+    if (*mc_ != nullptr)
     {
-        mc_->updateMousePos(pos);
+        (*mc_)->updateMousePos(pos);
         return true;
     }
 
@@ -82,8 +112,8 @@ bool Grabber::onMouseMove(Vec2 pos)
 
 VisibleMouseConstraint* Grabber::makeMouseConstraint(Body* b, Vec2 pos)
 {
-    return scene_.world().makeConstraint<VisibleMouseConstraint>(
-        b, pos, scene_.app()->renderer()
+    return scene_.world().makeConstraint<GrabConstraint>(
+        b, pos, scene_.app()->renderer(), mc_
     );
 }
 
-- 
2.43.0


From cbbfdae5948605af8260af7e0472514ee802f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:27 +0000
Subject: [PATCH 33/34] fix: the options of the box spawner keep the chosen
 orientation and colour

---
 src/Simu/app/Tool.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index 1174748..b6241cc 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -131,15 +131,15 @@ void BoxSpawner::doGui()
     ImGui::SliderFloat("Bounciness", &bounciness, 0.f, 1.f);
 
     constexpr float pi    = std::numbers::pi_v<float>;
-    float           ratio = orientation / (2.f * pi);
-    orientation -= std::floor(ratio) * pi;
-    int degrees = static_cast<int>(180 * orientation / pi);
-    ImGui::SliderInt("Orientation", &degrees, -180, 180);
-    orientation = degrees * pi / 180.f;
+    float           turns = std::round(orientation / (2.f * pi));
+    orientation -= turns * 2.f * pi;
+    int degrees = static_cast<int>(std::round(180 * orientation / pi));
+    if (ImGui::SliderInt("Orientation", &degrees, -180, 180))
+        orientation = degrees * pi / 180.f;
 
     Vec4 rgba = color / 255.f;
-    ImGui::ColorEdit3("Color", rgba.data);
-    color = static_cast<Rgba>(rgba * 255.f);
+    if (ImGui::ColorEdit3("Color", rgba.data))
+        color = static_cast<Rgba>(rgba * 255.f + Vec4::filled(0.5f));
 }
 
 bool BoxSpawner::onMousePress(Mouse::Input input)
-- 
2.43.0


From 971a51ef1cdd05af5dee99d0c7b6518ba3d900f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:27 +0000
Subject: [PATCH 34/34] fix: the pause button follows the scene's state

---
 src/Simu/app/Application.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index 6b52477..b4aa1b8 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -287,10 +287,9 @@ void Application::doGui(float dt)
         bool selectScene = true;
 
         // for scene
-        float playSpeed   = 1.f;
-        bool  restart     = false;
-        bool  pauseToggle = false;
-        bool  step        = false;
+        float playSpeed = 1.f;
+        bool  restart   = false;
+        bool  step      = false;
 
         bool showProfiler       = true;
         bool showEngineSettings = false;
@@ -459,20 +458,19 @@ void Application::doGui(float dt)
         if (ImGui::Button("+"))
             scene_->setPlaySpeed(scene_->playSpeed() * 2.f);
 
-        if (ImGui::Button(menu.pauseToggle ? "Play (P)" : "Pause (P)"))
+        if (ImGui::Button(scene_->isPaused() ? "Play (P)" : "Pause (P)"))
         {
-            menu.pauseToggle = !menu.pauseToggle;
-            if (menu.pauseToggle)
-                scene_->pause();
-            else
+            if (scene_->isPaused())
                 scene_->resume();
+            else
+                scene_->pause();
         }
 
         if (ImGui::Button("Restart (R)"))
             scene_->reset();
 
         // TODO:
-        // if (menu.pauseToggle)
+        // if (scene_->isPaused())
         //     if (ImGui::Button("Step (S)"))
         //         scene_->step();
 
-- 
2.43.0

