From 4222e272b745db998b2e9d6fcb295534810c92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 01/21] fix: postfix increment of a segmented container
 iterator skips the invalid elements

---
 lib/mito/utilities/SegmentedContainerIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..ddfd157 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -103,8 +103,8 @@ namespace mito::utilities {
         {
             // make a copy of me
             auto clone = *this;
-            // increment me
-            ++_segmented_iterator;
+            // increment me (skipping the invalid elements)
+            ++(*this);
             // and return the clone
             return clone;
         }
-- 
2.43.0


From b61bc4548813d90b1ac1bee78bcd56d9fdc15d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 02/21] fix: iterate over long runs of invalid elements without
 recursion

---
 .../utilities/SegmentedContainerIterator.h     | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index ddfd157..41a5e01 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -81,18 +81,12 @@ namespace mito::utilities {
         // arithmetic: prefix
         constexpr auto operator++() -> iterator_reference
         {
-            // increment the iterator to the segmented allocator
-            ++_segmented_iterator;
-
-            if (_segmented_iterator.ptr() == std::end(_segmented_iterator)) {
-                return *this;
-            }
-
-            // if you found an invalid element
-            if (!_segmented_iterator->is_valid()) {
-                // move on to the next one
-                return operator++();
-            }
+            // increment the iterator to the segmented allocator, moving past the invalid elements (in
+            // a loop, as a long run of invalid elements would exhaust the stack with a recursion)
+            do {
+                ++_segmented_iterator;
+            } while (_segmented_iterator.ptr() != std::end(_segmented_iterator)
+                     && !_segmented_iterator->is_valid());
 
             // all done
             return *this;
-- 
2.43.0


From a187fb5e147d9632686de42bf0b7abdb463d20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 03/21] fix: copying a null shared pointer does not dereference
 it

---
 lib/mito/utilities/SharedPointer.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..0ec2b6b 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -172,8 +172,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From 852156e8e729747f98d6845b41cb1bea1e73cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 04/21] fix: move assignment between pointers to the same
 resource does not leak a reference

---
 lib/mito/utilities/SharedPointer.icc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 0ec2b6b..398c025 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} is not me
+    if (&other != this) {
         // release my current handle
         _release();
-        // adopt the new shareable
+        // adopt the new shareable, along with the reference that {other} holds to it
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
-- 
2.43.0


From d5cdab71de3ef171d93ea75815e3174a7332a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 05/21] fix: a repository does not destroy the erased resources
 a second time

---
 lib/mito/utilities/Repository.h         |  8 ++++++--
 lib/mito/utilities/SegmentedAllocator.h | 10 ++++++++++
 lib/mito/utilities/externals.h          |  2 ++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..2554830 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,9 +70,13 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
+            // the locations of the erased resources, which have been destroyed already
+            const auto erased = _resources.available_locations();
+            // destroy all other resources
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                if (!erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..37427a8 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -130,6 +130,16 @@ namespace mito::utilities {
 
         inline auto segment_size() const noexcept -> int { return _segment_size; }
 
+        // the locations of the erased elements that have not been reused so far
+        inline auto available_locations() const -> std::unordered_set<const resource_type *>
+        {
+            std::unordered_set<const resource_type *> locations;
+            for (auto queue = _available_locations; !queue.empty(); queue.pop()) {
+                locations.insert(queue.front());
+            }
+            return locations;
+        }
+
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..5b7e8c0 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -11,6 +11,8 @@
 #include <cassert>
 #include <queue>
 #include <vector>
+#include <unordered_map>
+#include <unordered_set>
 #include <utility>
 #include <memory>
 #include <type_traits>
-- 
2.43.0


From 0d47f2ddf821d3a0834e5f21ed1fbac13773615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 06/21] fix: a repository does not erase a resource that is
 still in use, as documented

---
 lib/mito/utilities/Repository.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 2554830..b6f20b3 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -102,7 +102,7 @@ namespace mito::utilities {
         }
 
         // erase a resource from the repository
-        // (this method actually erases the simplex only if is no one else is using it, otherwise
+        // (this method actually erases the resource only if no one else is using it, otherwise
         // does nothing)
         inline auto erase(pointer_type & resource) -> bool
         {
@@ -111,6 +111,12 @@ namespace mito::utilities {
                 return false;
             }
 
+            // if the resource is still being used by someone else
+            if (resource.references() > 1) {
+                // do nothing
+                return false;
+            }
+
             // remove this resource from the collection of resources
             _resources.erase(resource.handle());
             // destroy the resource
-- 
2.43.0


From dca68a4e51f8fe4a7784b0ef2812c4c10f1aa125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 07/21] fix: a segment obtained by flipping another one is
 found by its vertices

---
 lib/mito/topology/Topology.icc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..f0d8a7a 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -269,6 +269,15 @@ mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertice
     auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
     auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
 
+    // the segment may also exist as the flip of the segment connecting the vertices in the reverse
+    // order, in which case the tips may be available only with the opposite orientation
+    if (simplex_left_tip.is_nullptr()) {
+        simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], +1);
+    }
+    if (simplex_right_tip.is_nullptr()) {
+        simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], -1);
+    }
+
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
         // check if the oriented exists
-- 
2.43.0


From 9c7ec4b5968359e6cc30742bb84a4782b0c2ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 08/21] fix: flip the diagonal of triangles oriented opposite
 to their footprints

---
 lib/mito/topology/FlipDiagonal.icc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..5297090 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,10 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // (the composition is that of the footprint: it is traversed in the opposite sense
+                // if the simplex is oriented opposite to its footprint)
+                boundary_simplices.insert(
+                    simplex0->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +111,10 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // (the composition is that of the footprint: it is traversed in the opposite sense
+                // if the simplex is oriented opposite to its footprint)
+                boundary_simplices.insert(
+                    simplex1->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From c104706e8cd477a8a7b33d96b70e50b35c7d2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 09/21] fix: wedge of a one-form with a two-form misses a term

---
 lib/mito/tensor/wedge.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..a2331c2 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -66,20 +66,14 @@ namespace mito::tensor {
     constexpr auto wedge(const form_t<P1, F1> & b_tilda, const form_t<P2, F2> & a_tilda)
     requires(P1 == 1 && P2 == 2)
     {
-        // positive sign if P1 is even, negative sign if P1 is odd
-        constexpr int sign = (P1 % 2 ? +1 : -1);
-
+        // return a {form} that, when contracted with {x}, {y} and {z}...
         return form<P1 + P2>(
-                   [a_tilda, b_tilda]<class X, class Y, class Z>(
-                       const X & x, const Y & y, const Z & z) -> auto {
-                       return wedge(b_tilda(x), a_tilda)(y, z);
-                   })
-             + sign
-                   * form<P1 + P2>(
-                       [a_tilda, b_tilda]<class X, class Y, class Z>(
-                           const X & x, const Y & y, const Z & z) -> auto {
-                           return wedge(b_tilda, a_tilda(x, y))(z);
-                       });
+            [a_tilda, b_tilda]<vector_c X, vector_c Y, vector_or_dummy_c Z>(
+                const X & x, const Y & y, const Z & z) -> auto {
+                // ... returns the {scalar} prescribed by the wedge product
+                return b_tilda(x) * a_tilda(y, z) - b_tilda(y) * a_tilda(x, z)
+                     + a_tilda(x, y) * b_tilda(z);
+            });
     }
 }
 
-- 
2.43.0


From d6246331827486df655a5a90287e413d22395570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 10/21] fix: a material consistency test outlives the material
 and parameters it was given

---
 lib/mito/materials/MaterialConsistencyTest.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..30c54c3 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -152,11 +152,11 @@ class mito::materials::MaterialConsistencyTest {
 
   private:
     // the material
-    const material_type & _material;
+    const material_type _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0


From d23219e0373db0ac5d801e4dc064442fcc1ef6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 11/21] fix: a composition of functions can itself be composed
 with a function

---
 lib/mito/functions/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index c0f2f87..81fe35e 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -514,7 +514,7 @@ namespace mito::functions {
         template <function_c H>
         constexpr auto operator()(const H & f) const
         {
-            return Composition(*this, f);
+            return functions::Composition(*this, f);
         }
 
         // subscript operator: only available if {output_type} is subscriptable
-- 
2.43.0


From 270d9c292a49fc42042016caa7a08c914b59fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 12/21] fix: differentiate linear combinations of functions of
 the same type

---
 lib/mito/functions/derivation_rules.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..d29a59b 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,11 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From 2b6d071ef719458c896d108134d0132bc4d97799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 13/21] fix: transpose and inverse of a transposed and inverted
 function

---
 lib/mito/functions/algebra.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mito/functions/algebra.h b/lib/mito/functions/algebra.h
index 4a127c2..a7fbe60 100644
--- a/lib/mito/functions/algebra.h
+++ b/lib/mito/functions/algebra.h
@@ -92,9 +92,10 @@ namespace mito::functions {
     }
 
     // f transposed
-    constexpr auto transpose(const function_c auto & f)
+    template <function_c F>
+    constexpr auto transpose(const F & f)
     {
-        return Transpose(f);
+        return Transpose<F>(f);
     }
 
     // determinant of f
@@ -104,9 +105,10 @@ namespace mito::functions {
     }
 
     // f inverse
-    constexpr auto inverse(const function_c auto & f)
+    template <function_c F>
+    constexpr auto inverse(const F & f)
     {
-        return Inverse(f);
+        return Inverse<F>(f);
     }
 
     // dyadic product of vector-valued functions f and g
-- 
2.43.0


From 5514b6175e0a691cd9b9fd59ee5a2443fb6a1a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 14/21] fix: x_2 extracts the third cartesian coordinate

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From 13d64b66bc00aabbb53e180e712fc0bec7ab5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 15/21] fix: the one-form equivalent to a vector field and the
 vector equivalent to it are inverse of each other

---
 lib/mito/geometry/metric_space.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..b48eef7 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -87,8 +87,9 @@ namespace mito::geometry {
     constexpr auto metric_space<coordsT>::metric_equivalent(
         const fields::vector_field_c auto & vector)
     {
-        // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        // vectors are represented by their components in an orthonormal frame, therefore the metric
+        // equivalent form to {vector} is the scalar product with {vector}
+        return _one_form(vector, functions::identity<coordinates_type, D>());
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From f4cf98e64eb98bbd1e7d61affee8807156627da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 16/21] fix: the boundary of a mesh takes the orientation of
 its cells into account

---
 lib/mito/mesh/Boundary.icc | 18 +++++++++++-------
 lib/mito/mesh/Mesh.h       | 30 +++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/mito/mesh/Boundary.icc b/lib/mito/mesh/Boundary.icc
index 374cb47..1858c7f 100644
--- a/lib/mito/mesh/Boundary.icc
+++ b/lib/mito/mesh/Boundary.icc
@@ -21,9 +21,10 @@ mito::mesh::Boundary<meshT>::boundary_size(const mesh_type & mesh) -> int
         // loop on the topological composition of {cell} and
         // increment counter if {subcell} is on the boundary of the mesh
         count +=
-            std::ranges::count_if(cell.simplex()->composition(), [&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
-            });
+            std::ranges::count_if(
+                cell.simplex()->composition(), [&mesh, &cell](const auto & subcell) {
+                    return mesh.isOnBoundary(cell, subcell);
+                });
     }
 
     // return the count of boundary cells
@@ -41,13 +42,16 @@ mito::mesh::Boundary<meshT>::boundary(const mesh_type & mesh) -> boundary_mesh_t
     for (const auto & cell : mesh.cells()) {
         // create view of {subcell}s on the boundary of the mesh
         auto subcellsOnBoundary =
-            cell.simplex()->composition() | std::views::filter([&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
+            cell.simplex()->composition() | std::views::filter([&mesh, &cell](const auto & subcell) {
+                return mesh.isOnBoundary(cell, subcell);
             });
         // loop on the {subcell} on the boundary
         for (const auto & subcell : subcellsOnBoundary) {
-            // add {cell} to the boundary mesh
-            boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            // orient {subcell} consistently with {cell}
+            auto oriented_subcell =
+                (cell.simplex()->orientation() == +1 ? subcell : topology::flip(subcell));
+            // add it to the boundary mesh
+            boundary.insert(mito::geometry::geometric_simplex<D>(oriented_subcell, cell.nodes()));
         }
     }
 
diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 1c529b6..03eee2d 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -67,14 +67,24 @@ namespace mito::mesh {
         Mesh & operator=(Mesh &&) noexcept = delete;
 
       private:
+        // the orientation with which {subcell} bounds {cell} (the composition of {cell} is that of its
+        // footprint, so it is to be reversed if {cell} is oriented opposite to its footprint)
+        static inline auto _orientation(
+            const cell_type & cell, const cell_topological_family_type<N - 1> & subcell) -> int
+        {
+            // all done
+            return cell.simplex()->orientation() * subcell->orientation();
+        }
+
         inline auto _register_cell_orientation(const cell_type & cell) -> void
         {
             // loop on the subcells of {cell}
             for (const auto & subcell : cell.simplex()->composition()) {
                 // increment the orientations count for this cell footprint id, depending on the
                 // orientation
-                (subcell->orientation() == +1 ? _orientations[subcell->footprint().id()][0] += 1 :
-                                                _orientations[subcell->footprint().id()][1] += 1);
+                (_orientation(cell, subcell) == +1 ?
+                     _orientations[subcell->footprint().id()][0] += 1 :
+                     _orientations[subcell->footprint().id()][1] += 1);
             }
 
             // all done
@@ -111,7 +121,7 @@ namespace mito::mesh {
                 for (const auto & subcell : cell.simplex()->composition()) {
                     // decrement the orientations count for this cell footprint id, depending on
                     // the orientation
-                    (subcell->orientation() == +1 ?
+                    (_orientation(cell, subcell) == +1 ?
                          _orientations[subcell->footprint().id()][0] -= 1 :
                          _orientations[subcell->footprint().id()][1] -= 1);
 
@@ -176,6 +186,20 @@ namespace mito::mesh {
             return false;
         }
 
+        // whether {subcell} is on the boundary of the mesh, with the orientation with which it bounds
+        // {cell}
+        inline auto isOnBoundary(
+            const cell_type & cell, const cell_topological_family_type<N - 1> & subcell) const
+            -> bool
+        {
+            // count how many times {subcell} occurs in the mesh with opposite orientation
+            const auto & counts = _orientations.at(subcell->footprint().id());
+            int count = (_orientation(cell, subcell) == -1 ? counts[0] : counts[1]);
+
+            // all done
+            return count == 0;
+        }
+
         // insert {cell} in mesh
         inline auto insert(const cell_type & cell) -> cell_type &
         requires(N > 0)
-- 
2.43.0


From 90d5c0894da19e8ee4582f0d3b44f9870e02a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 17/21] fix: a summit mesh written with the type of its
 elements can be read again

---
 lib/mito/io/summit/reader.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..97e52b4 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -99,6 +99,9 @@ namespace mito::io::summit {
         // TOFIX: Ignored for now
         std::string cell_set_id;
         fileStream >> cell_set_id;
+        // skip what is left of the line (the writer may add there the type of the element)
+        std::string rest;
+        std::getline(fileStream, rest);
 
         // all done
         return;
-- 
2.43.0


From 04be98106fda3a064ddf1073a61cbb0096eb3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 18/21] fix: H1 norm takes the gradient with respect to the
 physical coordinates

The gradients of the localized fields were taken with respect to the
parametric coordinates of each element, so that the norm depended on the
size of the elements.
---
 lib/mito/fem/norms.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..3e5ddb4 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -48,6 +48,8 @@ namespace mito::fem {
     {
         // get the element type
         using element_type = typename functionSpaceT::element_type;
+        // the parametric coordinates type of the element
+        using parametric_coordinates_type = typename element_type::parametric_coordinates_type;
 
         // initialize the norm
         auto norm = tensor::scalar_t{ 0.0 };
@@ -58,15 +60,21 @@ namespace mito::fem {
             auto u1_local = localize(u1, element);
             // localize {u2} on this element
             auto u2_local = localize(u2, element);
-            // assemble the gradient of the solution field on this element
+            // the gradient of {u1} on this element with respect to the parametric coordinates
             auto u1_local_gradient = fields::gradient(u1_local);
-            // localize the gradient of the exact solution on this element
+            // the gradient of {u2} on this element with respect to the parametric coordinates
             auto u2_local_gradient = fields::gradient(u2_local);
+            // the gradient of the difference with respect to the physical coordinates
+            auto gradient_difference = functions::function(
+                [&](const parametric_coordinates_type & xi)
+                    -> tensor::vector_t<element_type::dim> {
+                    return (u1_local_gradient(xi) - u2_local_gradient(xi))
+                         * tensor::inverse(element.jacobian()(xi));
+                });
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(gradient_difference)
                         .compute(element);
         }
 
-- 
2.43.0


From 738d09350d651435350dc472915d76a254969b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 19/21] fix: quadrature field factory uses the simplices of the
 cells

---
 lib/mito/discrete/factories.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/mito/discrete/factories.h b/lib/mito/discrete/factories.h
index 4dffe31..f99baef 100644
--- a/lib/mito/discrete/factories.h
+++ b/lib/mito/discrete/factories.h
@@ -13,10 +13,19 @@ namespace mito::discrete {
     template <class Y, int Q, mesh::mesh_c meshT>
     constexpr auto quadrature_field(const meshT & mesh, std::string name)
     {
-        // build a quadrature field on the cells collected from the mesh
-        // ({Q} quad points per cell)
-        return quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(
-            mesh.cells(), name);
+        // assemble the cell type
+        using cell_type = typename meshT::cell_type::simplex_type;
+
+        // build a quadrature field
+        auto field = quadrature_field_t<cell_type, Q, Y>(name);
+
+        // add to the field the cells collected from the mesh ({Q} quad points per cell)
+        for (const auto & cell : mesh.cells()) {
+            field.insert(cell.simplex());
+        }
+
+        // return the quadrature field
+        return field;
     }
 
     // mesh field factory
-- 
2.43.0


From d2fac9e6c7e2eded7dcdffa6a9cf82a18f844c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 20/21] fix: objects of the python module keep alive what they
 refer to

---
 extensions/mito/mito.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 7c15abb..d5e6158 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -148,7 +148,11 @@ PYBIND11_MODULE(mito, m)
                 [](const mesh_triangle_2D_t & mesh, const coordinate_system_2D_t & coord_system) {
                     // create the manifold
                     return mito::manifolds::manifold(mesh, coord_system);
-                }))
+                }),
+            // the manifold refers to the mesh
+            mito::py::keep_alive<1, 2>(),
+            // and to the coordinate system
+            mito::py::keep_alive<1, 3>())
         // done
         ;
 
@@ -160,7 +164,9 @@ PYBIND11_MODULE(mito, m)
         // the constructor
         .def(
             // the implementation
-            mito::py::init<const manifold_triangle_2D_t &>())
+            mito::py::init<const manifold_triangle_2D_t &>(),
+            // the integrator refers to the manifold
+            mito::py::keep_alive<1, 2>())
         // interface
         // integrate a scalar field
         .def(
-- 
2.43.0


From 518285e2bdbcfbbe45754fc64a9379189e8446df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 21/21] fix: forms can be made of any vector, and keep the
 functor they are made of

---
 lib/mito/tensor/api.h       |  5 +++--
 lib/mito/tensor/factories.h | 13 +++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/mito/tensor/api.h b/lib/mito/tensor/api.h
index 8340e8e..1a00799 100644
--- a/lib/mito/tensor/api.h
+++ b/lib/mito/tensor/api.h
@@ -97,11 +97,12 @@ namespace mito::tensor {
 
     // factory for one-forms
     template <class F>
-    constexpr auto one_form(F && f) -> one_form_t<F>;
+    requires(!vector_c<std::remove_cvref_t<F>>)
+    constexpr auto one_form(F && f) -> one_form_t<std::remove_cvref_t<F>>;
 
     // factory for P-forms
     template <int P, class F>
-    constexpr auto form(F && f) -> form_t<P, F>;
+    constexpr auto form(F && f) -> form_t<P, std::remove_cvref_t<F>>;
 
     // the tensor product of two one-forms
     constexpr auto tensor(const one_form_c auto & a_tilda, const one_form_c auto & b_tilda);
diff --git a/lib/mito/tensor/factories.h b/lib/mito/tensor/factories.h
index 008b86e..1256e29 100644
--- a/lib/mito/tensor/factories.h
+++ b/lib/mito/tensor/factories.h
@@ -9,18 +9,19 @@
 
 namespace mito::tensor {
 
-    // factory for one-forms
+    // factory for one-forms (the form keeps a copy of {f}; vectors have their own factory)
     template <class F>
-    constexpr auto one_form(F && f) -> one_form_t<F>
+    requires(!vector_c<std::remove_cvref_t<F>>)
+    constexpr auto one_form(F && f) -> one_form_t<std::remove_cvref_t<F>>
     {
-        return one_form_t<F>(std::forward<F>(f));
+        return one_form_t<std::remove_cvref_t<F>>(std::forward<F>(f));
     }
 
-    // factory for P-forms
+    // factory for P-forms (the form keeps a copy of {f})
     template <int P, class F>
-    constexpr auto form(F && f) -> form_t<P, F>
+    constexpr auto form(F && f) -> form_t<P, std::remove_cvref_t<F>>
     {
-        return form_t<P, F>(std::forward<F>(f));
+        return form_t<P, std::remove_cvref_t<F>>(std::forward<F>(f));
     }
 
     // construct a one-form that, given a vector {vector} and a (symmetric) matrix {matrix},
-- 
2.43.0

