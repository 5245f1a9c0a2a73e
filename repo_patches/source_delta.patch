From cc959afa750c398aacd344cf88b95acc7efc1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 01/24] fix: has_node_at_index and has_edge_at_index deny index
 0

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..9e84978 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From bd632bfe277dea0e51a98cf25577435408c399cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 02/24] fix: remove_edge panics when the removed edge is the
 last one in the list

---
 src/graph/planar_graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9e84978..6e9c9ef 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -396,8 +396,7 @@ where
                 // Make sure to do this BEFORE the call to `pop()`, which changes the array length
                 changed_edges.push(self.edge_count() - 1);
 
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+                self.edges.swap_remove(id);
             }
 
             // No nodes should ever be affected by this procedure if we've reached this point
-- 
2.43.0


From 94dc84882ba3c6df2467f889313127c7ae04b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 03/24] fix: remove_node panics on a node without edges

---
 src/graph/planar_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 6e9c9ef..f4d3492 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -436,8 +436,13 @@ where
             }
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
+            // (an isolated node has no incident edges, in which case no edges are deleted at all)
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From 8b75d25e759b5161d547f6524f38f22c15623f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 04/24] fix: add_edge adds a self-loop when both nodes are the
 same

---
 src/graph/planar_graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index f4d3492..3a0bc0a 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -211,6 +211,11 @@ where
         if !self.has_edge_between_nodes(src, dst) {
             // Make sure `src` and `dst` vertices actually exist
             if let (Some(_), Some(_)) = (self.get_vertex(src), self.get_vertex(dst)) {
+                // An edge from a node to itself has no extent, so there is nothing to add
+                if src == dst {
+                    return Ok((vec![], vec![]));
+                }
+
                 // First, push back the new edge
                 self.edges.push(Edge::new(src, dst, data, DEFAULT_LABEL));
 
-- 
2.43.0


From f6d0d258e72a527d4fad17165615a7358c01d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 05/24] fix: unique_points_among drops every copy of a
 duplicated point

---
 src/geometry/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..6cb25d3 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -170,16 +170,16 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
-    let mut unique = vec![];
+    let mut unique: Vec<Vec2> = vec![];
 
-    for (i, a) in ps.iter().enumerate() {
+    for a in ps.iter() {
         // Assume that this point `a` is unique
         let mut is_unique = true;
 
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
+        // Iterate through all of the points that were kept so far and check if `a` ~= `b`,
+        // so that exactly one point of each set of duplicates is kept
+        for b in unique.iter() {
+            if close_to(a, b) {
                 is_unique = false;
                 break;
             }
-- 
2.43.0


From 1ba12cc025b8cfad6f3a2598f3a356d8e90c17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 06/24] fix: number_of_basis_blades panics for grade zero and
 for grades above the dimension

---
 src/math/blade.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 44a73b0..083aebb 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -51,8 +51,8 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
 
 /// Compute `n` factorial.
 fn factorial(n: usize) -> usize {
-    let mut fact = n;
-    for i in 2..n {
+    let mut fact = 1;
+    for i in 2..=n {
         fact *= i;
     }
     return fact;
@@ -61,8 +61,13 @@ fn factorial(n: usize) -> usize {
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
-    let mut num = n;
-    for i in 1..k {
+    // There are no `k`-element subsets of a smaller set
+    if k > n {
+        return 0;
+    }
+
+    let mut num = 1;
+    for i in 0..k {
         num *= n - i;
     }
     return num / factorial(k);
-- 
2.43.0


From 7cc8af640b2d1e4e5ddce0c6d661830891b2c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 07/24] fix: Vector3::angle is NaN for some (anti)parallel
 vectors

---
 src/math/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/vector.rs b/src/math/vector.rs
index de31a5f..f4fd6dd 100644
--- a/src/math/vector.rs
+++ b/src/math/vector.rs
@@ -137,7 +137,9 @@ where
     pub fn angle(self, rhs: Self) -> T {
         let u_norm = self.normalize();
         let v_norm = rhs.normalize();
-        u_norm.dot(v_norm).acos()
+
+        // Rounding may push the cosine slightly past 1 (or -1), where `acos` is undefined
+        u_norm.dot(v_norm).max(-T::one()).min(T::one()).acos()
     }
 }
 
-- 
2.43.0


From 3edfe8162c1e0c2fb5841c31a669f6efe19e439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 08/24] fix: Rotor3::from_vectors builds the wrong rotation for
 vectors that are not unit length

---
 src/math/rotor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/rotor.rs b/src/math/rotor.rs
index 874d7de..c58e91b 100644
--- a/src/math/rotor.rs
+++ b/src/math/rotor.rs
@@ -69,6 +69,10 @@ where
         // In most of the literature, the left-hand multiplier `vu` corresponds to
         // the rotor `R`, whereas the right-hand multiplier `uv` corresponds to the
         // inverse rotor, `R†` (we want to construct `R`)
+        //
+        // The formula only holds for unit vectors
+        let u = u.normalize();
+        let v = v.normalize();
         let scalar = T::one() + v.dot(u);
         let bivector = v.wedge(u);
 
-- 
2.43.0


From bf4cc3166f58912d900a3119c6bd704c42e936e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 09/24] fix: Fold writes three keys under names that it does
 not read back

---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..2f5aa51 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From 5836cf69bd1aa437c76bff9c18fd8d8fc307a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 10/24] fix: Fold::from_file panics on files that are not valid
 FOLD documents

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2f5aa51..3b2a1fe 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From 8e4ff58ee84ba1b567c55e431e011506287ed391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 11/24] fix: parallel rejects parallel vectors whose dot
 product is subject to rounding

---
 src/geometry/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 6cb25d3..e3184d3 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -10,7 +10,8 @@ pub fn parallel(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
     // the absolute value
     let abs_dot = nalgebra_glm::normalize_dot(&dir_ab, &dir_cd).abs();
 
-    if (abs_dot - 1.0).abs() < nalgebra_glm::epsilon() {
+    // Computing the dot product of two normalized vectors can be off by a few units of rounding
+    if (abs_dot - 1.0).abs() < 8.0 * std::f32::EPSILON {
         return true;
     }
 
-- 
2.43.0


From accadbcddecf57698f1c1cff7d54056cfb00d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 12/24] fix: is_degenerate_triangle misjudges thin and rounded
 triangles

---
 src/geometry/utils.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index e3184d3..d988fac 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -18,19 +18,17 @@ pub fn parallel(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
     false
 }
 
-/// Determines whether a triangle is degenerate (i.e. has one or more sides with length 0).
-pub fn is_degenerate_triangle(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
-    let side_a = nalgebra_glm::distance(b, c);
-    let side_b = nalgebra_glm::distance(a, c);
-    let side_c = nalgebra_glm::distance(a, b);
+/// Calculates twice the (signed) area of the triangle formed by three points `a`, `b`, and `c`, without
+/// the rounding that single precision would incur for thin triangles.
+fn calculate_doubled_triangle_area(a: &Vec2, b: &Vec2, c: &Vec2) -> f64 {
+    let (ax, ay) = (a.x as f64, a.y as f64);
 
-    // Triangle inequality: could also sort `{A, B, C}` and simply check if `(A + B) <= C`,
-    // but this is more readable for now
-    if (side_a + side_b) <= side_c || (side_a + side_c) <= side_b || (side_b + side_c) <= side_a {
-        return true;
-    }
+    (b.x as f64 - ax) * (c.y as f64 - ay) - (c.x as f64 - ax) * (b.y as f64 - ay)
+}
 
-    false
+/// Determines whether a triangle is degenerate (i.e. its vertices all lie on one line).
+pub fn is_degenerate_triangle(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
+    calculate_doubled_triangle_area(a, b, c) == 0.0
 }
 
 /// Calculates the incenter of the triangle formed by three points `a`,
-- 
2.43.0


From 427b2591e6ad6fa2276b29b320912312f93f3909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 13/24] fix: calculate_triangle_incenter returns a wrong or NaN
 inradius for thin triangles

---
 src/geometry/utils.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index d988fac..294360b 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -49,14 +49,9 @@ pub fn calculate_triangle_incenter(a: &Vec2, b: &Vec2, c: &Vec2) -> Option<(Vec2
         (side_a * a.y + side_b * b.y + side_c * c.y) * inv_p,
     );
 
-    // The semiperimeter of the triangle
-    let p = (side_a + side_b + side_c) * 0.5;
-
-    // Heron's formula for calculating the area of an arbitrary triangle
-    let area = (p * (p - side_a) * (p - side_b) * (p - side_c)).sqrt();
-
-    // Finally, calculate the inradius from the two quantities above
-    let inradius = area / p;
+    // Finally, calculate the inradius from the area and the perimeter - note that Heron's formula
+    // cannot be used to find the area, since it breaks down for thin triangles
+    let inradius = calculate_doubled_triangle_area(a, b, c).abs() as f32 * inv_p;
 
     Some((incenter, inradius))
 }
-- 
2.43.0


From 12fcf7de88c0ea07194de2d515d5bf574ca90926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 14/24] fix: calculate_line_intersection misses intersections
 outside of the given segments

---
 src/geometry/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 294360b..6e30881 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -195,11 +195,6 @@ pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Op
 
     if determinant.abs() > nalgebra_glm::epsilon() {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
-        let u_b = ((b.x - a.x) * (a.y - c.y) - (b.y - a.y) * (a.x - c.x)) / determinant;
-
-        if !((0.0 <= u_a && u_a <= 1.0) && (0.0 <= u_b && u_b <= 1.0)) {
-            return None;
-        }
 
         let x = a.x + u_a * (b.x - a.x);
         let y = a.y + u_a * (b.y - a.y);
-- 
2.43.0


From c3f6ec412e13bad50cf781679cbfd2ca65700ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 15/24] fix: calculate_perpendicular_bisector is NaN for
 horizontal segments and ignores the offset's length

---
 src/geometry/utils.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 6e30881..da3338e 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -96,19 +96,11 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     // First, calculate the midpoint of the line segment from `a` to `b`
     let midpoint = calculate_midpoint(a, b);
 
-    // Then, calculate the slope of the line segment and the slope of the perpendicular
-    let slope = (b.y - a.y) / (b.x - a.x);
-    let slope_perpendicular = -1.0 / slope;
-    let intercept = midpoint.y - slope_perpendicular * midpoint.x;
-
-    // Add a small offset in the x-direction (this is arbitrary)
-    let offset_point = midpoint + Vec2::new(offset, 0.0);
-    let second = Vec2::new(
-        offset_point.x,
-        offset_point.x * slope_perpendicular + intercept,
-    );
+    // Then, move away from the midpoint in a direction perpendicular to the line segment
+    let direction = nalgebra_glm::normalize(&(b - a));
+    let perpendicular = Vec2::new(-direction.y, direction.x);
 
-    (midpoint, second)
+    (midpoint, midpoint + perpendicular * offset)
 }
 
 /// Checks if the specified point `p` lies along the line segment `ab`.
-- 
2.43.0


From 3d2be9a1e12d4b975040c20a767d4ea6d5eabbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 16/24] fix: calculate_line_intersection takes lines given by
 nearby points for parallel ones

---
 src/geometry/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index da3338e..9acabd8 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -185,7 +185,10 @@ pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
 pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
     let determinant = (d.y - c.y) * (b.x - a.x) - (d.x - c.x) * (b.y - a.y);
 
-    if determinant.abs() > nalgebra_glm::epsilon() {
+    // The determinant of short segments is small, even if they are not parallel at all
+    let lengths = nalgebra_glm::distance(a, b) * nalgebra_glm::distance(c, d);
+
+    if determinant.abs() > std::f32::EPSILON * lengths.min(1.0) {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
 
         let x = a.x + u_a * (b.x - a.x);
-- 
2.43.0


From 2d455ef9d0b990f98d56bd7c50c042f1bba3c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 17/24] fix: is_on_line_segment ignores include_endpoints and
 rejects points at larger scales

---
 src/geometry/utils.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 9acabd8..bc4102b 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -103,19 +103,42 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     (midpoint, midpoint + perpendicular * offset)
 }
 
+/// Calculates the distance below which `points` cannot be told apart, due to the rounding of their
+/// coordinates.
+pub(crate) fn calculate_tolerance<'a, I: IntoIterator<Item = &'a Vec2>>(points: I) -> f32 {
+    let extent = points
+        .into_iter()
+        .fold(1.0f32, |extent, p| extent.max(p.x.abs()).max(p.y.abs()));
+
+    16.0 * std::f32::EPSILON * extent
+}
+
 /// Checks if the specified point `p` lies along the line segment `ab`.
 pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool) -> bool {
-    // The total length of the line segment
-    let ab = nalgebra_glm::distance(a, b);
+    let tolerance = calculate_tolerance([a, b, p].iter().cloned());
+
+    is_on_line_segment_within(a, b, p, include_endpoints, tolerance)
+}
+
+/// Checks if the specified point `p` lies along the line segment `ab`, where distances of up to
+/// `tolerance` are disregarded.
+pub(crate) fn is_on_line_segment_within(
+    a: &Vec2,
+    b: &Vec2,
+    p: &Vec2,
+    include_endpoints: bool,
+    tolerance: f32,
+) -> bool {
+    // Is the specified point one of the endpoints of the line segment?
+    if nalgebra_glm::distance(a, p) <= tolerance || nalgebra_glm::distance(p, b) <= tolerance {
+        return include_endpoints;
+    }
 
-    // The lengths of the two sub-segments joining each endpoint to the specified point
-    let ap = nalgebra_glm::distance(a, p);
-    let pb = nalgebra_glm::distance(p, b);
+    // Otherwise, find the point along the line segment that is closest to the specified point
+    let ab = b - a;
+    let t = nalgebra_glm::dot(&(p - a), &ab) / nalgebra_glm::dot(&ab, &ab);
 
-    // Return `false` if the specified point is one of the endpoints of the line segment
-    ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+    t > 0.0 && t < 1.0 && nalgebra_glm::distance(p, &(a + ab * t)) <= tolerance
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
-- 
2.43.0


From 754794fa02fc42b98fbfc30acfcaa6a1874d07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 18/24] fix: close_to tells points apart that differ by
 rounding only

---
 src/geometry/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index bc4102b..1f5e675 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -174,7 +174,7 @@ pub fn find_closest_to(t: &Vec2, points: &Vec<Vec2>) -> (usize, f32) {
 
 /// Determines whether the specified points are "close to" each other, i.e. the same.
 pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
-    nalgebra_glm::distance(a, b) <= nalgebra_glm::epsilon()
+    nalgebra_glm::distance(a, b) <= calculate_tolerance([a, b].iter().cloned())
 }
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
-- 
2.43.0


From b20fdf37ac82cca565543d78fa8c1c4c5c2b91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 19/24] fix: Line::contains depends on the scale of the line's
 direction and coordinates

---
 src/geometry/line.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry/line.rs b/src/geometry/line.rs
index b2746c9..e8d60a2 100644
--- a/src/geometry/line.rs
+++ b/src/geometry/line.rs
@@ -1,10 +1,6 @@
-use crate::math::bivector::Bivector3;
-use crate::math::space::Exterior;
+use crate::math::space::{Exterior, Norm};
 use crate::math::vector::Vector3;
 
-use approx::UlpsEq;
-use num_traits::Zero;
-
 pub struct Line {
     point: Vector3<f32>,
     direction: Vector3<f32>,
@@ -28,7 +24,11 @@ impl Line {
     /// Reference: http://geocalc.clas.asu.edu/GA_Primer/GA_Primer/introduction-to-geometric/high-school-geometry-with/solutions-for-straight-line.html
     pub fn contains(&self, x: &Vector3<f32>) -> bool {
         let bivector = (*x - self.point).wedge(self.direction);
-        bivector.ulps_eq(&Bivector3::zero(), std::f32::EPSILON, 4)
+
+        // The area of the bivector grows with the length of the direction and with the distance (of
+        // the point) from the line, which is subject to the rounding of the coordinates
+        let extent = self.point.norm().max(x.norm()).max(1.0);
+        bivector.norm() <= 16.0 * std::f32::EPSILON * extent * self.direction.norm()
     }
 
     pub fn intersect(&self, rhs: &Line) -> Option<Vector3<f32>> {
-- 
2.43.0


From ba21fdaa747ab9379a92a4024d8f2f1cb477e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 20/24] fix: calculate_line_segment_intersection misses shared
 endpoints due to rounding

---
 src/geometry/utils.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 1f5e675..8b739d7 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -58,6 +58,10 @@ pub fn calculate_triangle_incenter(a: &Vec2, b: &Vec2, c: &Vec2) -> Option<(Vec2
 
 /// Calculates the intersection between two line segments (`ab` and `cd`) or `None` if they do not intersect.
 pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
+    // In single precision, rounding would move the point of intersection too far, especially if the
+    // segments are nearly parallel
+    let [a, b, c, d] = [a, b, c, d].map(|p| nalgebra_glm::vec2(p.x as f64, p.y as f64));
+
     let delta_x0 = b.x - a.x;
     let delta_y0 = b.y - a.y;
     let delta_x1 = d.x - c.x;
@@ -67,8 +71,15 @@ pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec
     let s = (-delta_y0 * (a.x - c.x) + delta_x0 * (a.y - c.y)) / denom;
     let t = (delta_x1 * (a.y - c.y) - delta_y1 * (a.x - c.x)) / denom;
 
-    if s >= 0.0 && s <= 1.0 && t >= 0.0 && t <= 1.0 {
-        return Some(Vec2::new(a.x + (t * delta_x0), a.y + (t * delta_y0)));
+    // Rounding must not push the point of intersection past an endpoint that the segments share
+    let min = -1e-9;
+    let max = 1.0 + 1e-9;
+
+    if s >= min && s <= max && t >= min && t <= max {
+        return Some(Vec2::new(
+            (a.x + (t * delta_x0)) as f32,
+            (a.y + (t * delta_y0)) as f32,
+        ));
     }
 
     None
-- 
2.43.0


From 67eac182ae85a843ad44cce34f98396a6826eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 21/24] fix: add_edge does not report the new edge if it only
 splits other edges

---
 src/graph/planar_graph.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 3a0bc0a..ba8534e 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -222,17 +222,7 @@ where
                 // TODO: if the edge we just added gets split, do we copy its data over to the child edges?
 
                 // Perform line-segment/line-segment intersection tests
-                let (changed_nodes, mut changed_edges) =
-                    self.split_edges_along_edge(self.edge_count() - 1);
-
-                // If the array of changed edges is empty, this means that no edge splitting was necessary,
-                // but we still want to make sure we return at least one edge index (in this case, the edge
-                // was simply added to the end of the graph's edge array, so just return that index)
-                if changed_edges.is_empty() {
-                    changed_edges.push(self.edge_count() - 1);
-                }
-
-                return Ok((changed_nodes, changed_edges));
+                return Ok(self.split_edges_along_edge(self.edge_count() - 1));
             }
 
             return Err(PlanarGraphError::NoSuchVertex);
@@ -297,7 +287,7 @@ where
         vec![]
     }
 
-    /// Splits any edges that intersect with the specified edge. This function returns a tuple of 2 arrays:
+    /// Splits any edges that intersect with the specified edge, which has to be the last one. This function returns a tuple of 2 arrays:
     /// 1. An array containing the indices of any newly created nodes
     /// 2. An array containing the indices of any newly created (or modified / invalidated) edges
     fn split_edges_along_edge(&mut self, id: EdgeIndex) -> (Vec<NodeIndex>, Vec<EdgeIndex>) {
@@ -367,6 +357,11 @@ where
             }
         }
 
+        // The target edge was added last, so its slot and all of the following ones are new, no matter
+        // whether the target edge was split - other than that, only edges that were split changed
+        changed_edges.retain(|index| *index < id);
+        changed_edges.extend(id..self.edge_count());
+
         (changed_nodes, changed_edges)
     }
 
-- 
2.43.0


From a455e521071ad46038992af908f923d1d62e7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 22/24] fix: PlanarGraph duplicates nodes and misses splits in
 drawings larger than a few units

---
 src/graph/planar_graph.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index ba8534e..9a0b89c 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -172,6 +172,11 @@ where
             .collect::<Vec<_>>()
     }
 
+    /// Returns the distance below which parts of the drawing cannot be told apart, due to rounding.
+    fn tolerance(&self) -> f32 {
+        utils::calculate_tolerance(self.nodes.iter().map(|node| &node.position))
+    }
+
     /// Attempts to add a new node to the graph at `position`. This function returns a tuple with 2 entries:
     ///
     /// 1. The index of the newly added node (or the index of an existing node if the specified node was
@@ -181,7 +186,11 @@ where
         // Check if the vertex is the same as an existing vertex (within epsilon)
         let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
 
-        if distance < nalgebra_glm::epsilon() {
+        let tolerance = self
+            .tolerance()
+            .max(utils::calculate_tolerance(std::iter::once(position)));
+
+        if distance <= tolerance {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -238,16 +247,18 @@ where
     fn split_edges_at_node(&mut self, id: NodeIndex) -> Vec<EdgeIndex> {
         if let Some(_) = self.nodes.get(id) {
             println!("Splitting edges at node with index {}", id);
+            let tolerance = self.tolerance();
             let mut changed_edges = vec![];
             let mut additional_edges = vec![];
 
             for (index, edge) in self.edges.iter_mut().enumerate() {
                 // Does the target node lie along this edge somewhere?
-                let on_edge = utils::is_on_line_segment(
+                let on_edge = utils::is_on_line_segment_within(
                     &self.nodes[edge.src].position,
                     &self.nodes[edge.dst].position,
                     &self.nodes[id].position,
                     false,
+                    tolerance,
                 );
 
                 if on_edge {
@@ -344,7 +355,7 @@ where
             let (index, distance) =
                 utils::find_closest_to(intersection, &self.gather_node_positions());
 
-            if distance < nalgebra_glm::epsilon() {
+            if distance <= self.tolerance() {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
             } else {
-- 
2.43.0


From 65c3eba9d380ae45f160003a40d29c861989ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 23/24] fix: add_edge ignores existing edges and isolated nodes
 along the new edge

---
 src/graph/planar_graph.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9a0b89c..4d1724b 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -307,12 +307,30 @@ where
         let mut changed_nodes = vec![];
         let mut changed_edges = vec![];
 
+        // Split the target edge at all of the existing nodes that it passes through - this takes care of
+        // all of the edges that end at the target edge or that run along it
+        let tolerance = self.tolerance();
+        let (src, dst) = self.edges[id].get_node_indices();
+        let nodes_along_edge = (0..self.node_count())
+            .filter(|&index| {
+                utils::is_on_line_segment_within(
+                    &self.nodes[src].position,
+                    &self.nodes[dst].position,
+                    &self.nodes[index].position,
+                    false,
+                    tolerance,
+                )
+            })
+            .collect::<Vec<_>>();
+
         // An array containing all of the points of intersections
         let mut intersections = vec![];
 
         for (index, edge) in self.edges.iter().enumerate() {
-            // Don't intersect the target edge with itself
-            if id != index {
+            // Don't intersect the target edge with itself, nor with edges that it only touches
+            let touches = |node| node == src || node == dst || nodes_along_edge.contains(&node);
+
+            if id != index && !touches(edge.src) && !touches(edge.dst) {
                 // The point of intersection (or null if no intersection is found)
                 if let Some(intersection) = utils::calculate_line_segment_intersection(
                     &self.nodes[edge.get_node_indices().0].position,
@@ -346,6 +364,10 @@ where
             intersections
         );
 
+        for index in nodes_along_edge.iter() {
+            changed_edges.extend(&self.split_edges_at_node(*index));
+        }
+
         for intersection in intersections.iter() {
             // One annoying edge-case we have to consider here is, what happens when the point of
             // intersection coincides (i.e. overlaps with) an existing node? In this case, we want
@@ -368,6 +390,18 @@ where
             }
         }
 
+        // Wherever the target edge runs along an existing edge, keep the latter only
+        for index in (id..self.edge_count()).rev() {
+            let (a, b) = self.edges[index].get_node_indices();
+
+            if self.edges[..id]
+                .iter()
+                .any(|edge| edge.includes(a) && edge.includes(b))
+            {
+                self.edges.swap_remove(index);
+            }
+        }
+
         // The target edge was added last, so its slot and all of the following ones are new, no matter
         // whether the target edge was split - other than that, only edges that were split changed
         changed_edges.retain(|index| *index < id);
-- 
2.43.0


From 86882728ceac897290fc39a6a2176fa4fd871140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 24/24] fix: do not duplicate an edge when a node splits two
 edges in a very flat corner

---
 src/graph/planar_graph.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 4d1724b..77619cc 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -284,8 +284,25 @@ where
                 }
             }
 
+            // Close to a corner with a very small angle, the node lies along both of the edges that meet
+            // there, in which case they share one of the new edges, which must not be added twice
+            for i in 0..changed_edges.len() {
+                let (a, b) = self.edges[changed_edges[i]].get_node_indices();
+                let is_shared = self.edges.iter().enumerate().any(|(index, edge)| {
+                    !changed_edges[i..].contains(&index) && edge.includes(a) && edge.includes(b)
+                });
+
+                if is_shared {
+                    self.edges[changed_edges[i]] = additional_edges[i].clone();
+                }
+            }
+
             // Now, add the other edges that we constructed during splitting
             for edge in additional_edges.iter().cloned() {
+                if self.has_edge_between_nodes(edge.src, edge.dst) {
+                    continue;
+                }
+
                 self.edges.push(edge);
 
                 // The edge that we just added is at position `self.edges.len() - 1`, so add that index
-- 
2.43.0

