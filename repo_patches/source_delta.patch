From d8812c03b3a342540ed21532358c6e9ab25a4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 01/41] fix: MeshEditor::cleanMesh wrote kept cells at their
 old index, past the end of the new cell array

---
 src/MeshEditor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index 1a32cfb..de2d0ac 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -713,7 +713,7 @@ cleanMesh(std::vector<unsigned>& cellMap,
         //POLY_ASSERT(faceMap.find(iface) != faceMap.end());
         if (mFaceMask[iface] == 1) {
           // int newFace = (*itr >= 0 ? faceMap[iface] : ~faceMap[iface]);
-          newCells[i].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
+          newCells[cellMap[i]].push_back( *itr < 0 ? ~faceMap[iface] : faceMap[iface]);
         }
       }
     }
-- 
2.43.0


From 5b12aa8bfea717bcec7f8ccb29c10632f7daf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 02/41] fix: deleteCells and MeshEditor left
 boundaryFaces/boundaryNodes indexing the old numbering

---
 src/MeshEditor.cc  | 4 ++++
 src/deleteCells.hh | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/MeshEditor.cc b/src/MeshEditor.cc
index de2d0ac..8beacaa 100644
--- a/src/MeshEditor.cc
+++ b/src/MeshEditor.cc
@@ -6,6 +6,7 @@
 
 #include "polytope.hh"
 #include "MeshEditor.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -739,6 +740,9 @@ cleanMesh(std::vector<unsigned>& cellMap,
     mMesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary element indices refer to the old numbering, so recompute them.
+  findBoundaryElements(mMesh, mMesh.boundaryFaces, mMesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mMesh.convexHull = PLC<Dimension, RealType>();
 
diff --git a/src/deleteCells.hh b/src/deleteCells.hh
index a15147b..9cbf095 100644
--- a/src/deleteCells.hh
+++ b/src/deleteCells.hh
@@ -17,6 +17,7 @@
 #include <map>
 
 #include "polytope.hh"
+#include "findBoundaryElements.hh"
 
 namespace polytope {
 
@@ -154,6 +155,9 @@ deleteCells(Tessellation<Dimension, RealType>& mesh,
     mesh.sharedFaces[idomain] = newFaces;
   }
 
+  // The boundary element indices refer to the old numbering, so recompute them.
+  findBoundaryElements(mesh, mesh.boundaryFaces, mesh.boundaryNodes);
+
   // If there was a convex hull in the mesh, it's probably no longer valid.
   mesh.convexHull = PLC<Dimension, RealType>();
 
-- 
2.43.0


From 1d457e9a70f57d0a28865e528138012f844d6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 03/41] fix: Hasher and uniquePoints kept 64-bit position
 hashes in an int, merging distinct points

---
 src/polytope_geometric_utilities.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 653504c..6552c94 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -61,7 +61,7 @@ template<int Dimension, typename RealType> struct Hasher;
 template<typename RealType> struct Hasher<2, RealType> {
 
   // typedef typename DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 31U; }
   //static unsigned  num1dbits()                { return 30U; }
@@ -172,7 +172,7 @@ template<typename RealType> struct Hasher<2, RealType> {
 template<typename RealType> struct Hasher<3, RealType> {
 
   // typedef DimensionTraits<3, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   static unsigned  num1dbits()                { return 21U; }
   static CoordHash coordMax()                 { return (1ULL << num1dbits()) - 1ULL; }
@@ -1359,7 +1359,7 @@ uniquePoints(const std::vector<RealType>& points,
   POLY_ASSERT(points.size() % Dimension == 0);
   typedef geometry::Hasher<Dimension, RealType> HasherType;
   // typedef DimensionTraits<Dimension, RealType>::CoordHash CoordHash;
-  typedef KeyTraits::Key CoordHash;
+  typedef uint64_t CoordHash;
 
   // // Compute the bounding box.
   // RealType xmin[Dimension], xmax[Dimension];
-- 
2.43.0


From 78bacf217dba6e3d963a5025f20414ca078de281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 04/41] fix: computeNormal computed a wrong x component of the
 3D plane normal

---
 src/convexIntersect.hh              | 2 +-
 src/polytope_geometric_utilities.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index 095a9c1..ca7ec46 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -95,7 +95,7 @@ void computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
                    double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 6552c94..917fe3a 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -1577,7 +1577,7 @@ computeNormal(const RealType& ax, const RealType& ay, const RealType& az,
               double& nx, double& ny, double& nz) {
   const double dx_ab = bx - ax, dy_ab = by - ay, dz_ab = bz - az;
   const double dx_ac = cx - ax, dy_ac = cy - ay, dz_ac = cz - az;
-  nx = dy_ab*dz_ac - dz_ab*dz_ac;
+  nx = dy_ab*dz_ac - dz_ab*dy_ac;
   ny = dz_ab*dx_ac - dx_ab*dz_ac;
   nz = dx_ab*dy_ac - dy_ab*dx_ac;
 }
-- 
2.43.0


From 64fa59095fd01f8ff6c8c688688a9715473e9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 05/41] fix: 3D convexIntersect could not separate polyhedra
 along an edge-edge direction

---
 src/convexIntersect.hh | 43 +++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/convexIntersect.hh b/src/convexIntersect.hh
index ca7ec46..d059379 100644
--- a/src/convexIntersect.hh
+++ b/src/convexIntersect.hh
@@ -85,6 +85,25 @@ int compare(const RealType& ox, const RealType& oy, const RealType& oz,
   }
 }
 
+//------------------------------------------------------------------------------
+// The side of the plane a cloud of points lies on, allowing points in the
+// plane.  0 if there are points on both sides, or no points off the plane.
+//------------------------------------------------------------------------------
+template<typename RealType>
+int supportingSide(const RealType& ox, const RealType& oy, const RealType& oz,
+                   const double& nx, const double& ny, const double& nz,
+                   const std::vector<RealType>& points) {
+  const unsigned n = points.size() / 3;
+  int result = 0;
+  for (unsigned i = 0; i != n; ++i) {
+    const int side = compare(ox, oy, oz, nx, ny, nz,
+                             points[3*i], points[3*i + 1], points[3*i + 2]);
+    if (side*result < 0) return 0;
+    if (side != 0) result = side;
+  }
+  return result;
+}
+
 //------------------------------------------------------------------------------
 // Compute the 3D normal given three points (a, b, c).
 //------------------------------------------------------------------------------
@@ -257,20 +276,26 @@ convexIntersect(const ReducedPLC<3, RealType>& a, const ReducedPLC<3, RealType>&
          bItr != bEdges.end();
          ++bItr) {
       j = bItr->first;
-      computeNormal(RealType(0), RealType(0), RealType(0),
-                    a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                    b.points[3*j], b.points[3*j + 1], b.points[3*j + 2],
-                    nx, ny, nz);
 
-      // Test all of a.
-      sidea = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
-                      nx, ny, nz,
-                      a.points);
+      // The candidate separating direction is the cross product of the two edges.
+      const double adx = a.points[3*aItr->second    ] - a.points[3*i    ],
+                   ady = a.points[3*aItr->second + 1] - a.points[3*i + 1],
+                   adz = a.points[3*aItr->second + 2] - a.points[3*i + 2];
+      const double bdx = b.points[3*bItr->second    ] - b.points[3*j    ],
+                   bdy = b.points[3*bItr->second + 1] - b.points[3*j + 1],
+                   bdz = b.points[3*bItr->second + 2] - b.points[3*j + 2];
+      nx = ady*bdz - adz*bdy;
+      ny = adz*bdx - adx*bdz;
+      nz = adx*bdy - ady*bdx;
+
+      // The edge of a must support a: no point of a on both sides of its plane.
+      sidea = supportingSide(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
+                             nx, ny, nz,
+                             a.points);
       if (sidea == 0) continue;
       sideb = compare(a.points[3*i], a.points[3*i + 1], a.points[3*i + 2],
                       nx, ny, nz,
                       b.points);
-      if (sideb == 0) continue;
       if (sidea*sideb < 0) return false;
     }
   }
-- 
2.43.0


From a90f7f3fa93beb9cb16100cbc997359ac4a95c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 06/41] fix: intersect dropped intersections sharing a y
 coordinate with the previous one

---
 src/intersect.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intersect.hh b/src/intersect.hh
index bcbcbe8..d40d351 100644
--- a/src/intersect.hh
+++ b/src/intersect.hh
@@ -48,7 +48,7 @@ struct IntersectFacetsFunctor<2, RealType> {
       if(intersects) {
         if (numIntersections == 0) addPoint = true;
         else {
-          if (intersectionPoint[0] != result.back() - 1 and
+          if (intersectionPoint[0] != result[result.size() - 2] or
               intersectionPoint[1] != result.back() ) addPoint = true;
           else addPoint = false;
         }
-- 
2.43.0


From ebf9ff96ac82d18ec05a0017c448cf41dae5bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 07/41] fix: rayPlaneIntersection tested the ray origin instead
 of the plane normal for in-plane rays

---
 src/polytope_geometric_utilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 917fe3a..ab16de5 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -704,7 +704,7 @@ rayPlaneIntersection(const RealType* p_ray,
   const RealType delta[3] = {p_plane[0] - p_ray[0], p_plane[1] - p_ray[1], p_plane[2] - p_ray[2]};
   if (std::abs(ndots) < tol) {
     // Ray is parallel to the plane.
-    if (std::abs(dot<3, RealType>(p_ray, delta)) < tol) {
+    if (std::abs(dot<3, RealType>(n_plane, delta)) < tol) {
       // Ray is in the plane, just choose the origin point.
       result[0] = p_ray[0]; result[1] = p_ray[1]; result[2] = p_ray[2];
       return true;
-- 
2.43.0


From 7e592540cb0d94370bf6dd105b8297656b27fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 08/41] fix: collinear(cloud) skipped the third point in 3D and
 ran off the end of two 3D points

---
 src/polytope_geometric_utilities.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index ab16de5..1bfad65 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -483,8 +483,8 @@ collinear(const std::vector<RealType> points, const RealType tol) {
   bool isCollinear = true;
   int i;
   if (points.size()/Dimension > 1) {
-    i = Dimension;
-    while (isCollinear and i != points.size()/Dimension) {
+    i = 2;
+    while (isCollinear and i < int(points.size()/Dimension)) {
       isCollinear *= collinear<Dimension, RealType>(&points[0],
 						    &points[Dimension],
 						    &points[Dimension*i],
-- 
2.43.0


From 71d791ae308e9d71e1c5640640df48085643c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 09/41] fix: intersect reported a corner shared by the first
 and last facets twice

---
 src/intersect.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/intersect.hh b/src/intersect.hh
index d40d351..4b7dd23 100644
--- a/src/intersect.hh
+++ b/src/intersect.hh
@@ -48,9 +48,11 @@ struct IntersectFacetsFunctor<2, RealType> {
       if(intersects) {
         if (numIntersections == 0) addPoint = true;
         else {
-          if (intersectionPoint[0] != result[result.size() - 2] or
-              intersectionPoint[1] != result.back() ) addPoint = true;
-          else addPoint = false;
+          addPoint = true;
+          for (unsigned k = result.size() - 2*numIntersections; k != result.size(); k += 2) {
+            if (intersectionPoint[0] == result[k] and
+                intersectionPoint[1] == result[k + 1]) addPoint = false;
+          }
         }
       }
       
-- 
2.43.0


From 659fc332e805a081cecbcb2b24d3f2d743e9e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 10/41] fix: ReducedPLC(plc, points) left hole facets indexing
 the original point set

---
 src/ReducedPLC.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ReducedPLC.hh b/src/ReducedPLC.hh
index f2082d4..cf96474 100644
--- a/src/ReducedPLC.hh
+++ b/src/ReducedPLC.hh
@@ -40,6 +40,11 @@ public:
     for (i = 0; i != plc.facets.size(); ++i) {
       std::copy(plc.facets[i].begin(), plc.facets[i].end(), std::inserter(indices, indices.end()));
     }
+    for (unsigned ihole = 0; ihole != plc.holes.size(); ++ihole) {
+      for (i = 0; i != plc.holes[ihole].size(); ++i) {
+        std::copy(plc.holes[ihole][i].begin(), plc.holes[ihole][i].end(), std::inserter(indices, indices.end()));
+      }
+    }
     std::map<int, int> old2new;
     int j = 0;
     for (typename std::set<int>::const_iterator itr = indices.begin();
@@ -54,6 +59,13 @@ public:
         this->facets[i][j] = old2new[this->facets[i][j]];
       }
     }
+    for (unsigned ihole = 0; ihole != this->holes.size(); ++ihole) {
+      for (i = 0; i != this->holes[ihole].size(); ++i) {
+        for (j = 0; j != this->holes[ihole][i].size(); ++j) {
+          this->holes[ihole][i][j] = old2new[this->holes[ihole][i][j]];
+        }
+      }
+    }
   }
 
   //! output operator.
-- 
2.43.0


From e284ec5a59c1e45c5aaf5d15b829e1b9a860ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 11/41] fix: computeSortedFaceEdges mis-oriented the first edge
 of an open chain

---
 src/polytope_internal.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polytope_internal.hh b/src/polytope_internal.hh
index 30a6dc3..a3e7f4e 100644
--- a/src/polytope_internal.hh
+++ b/src/polytope_internal.hh
@@ -246,7 +246,13 @@ computeSortedFaceEdges(std::vector<std::pair<int, int> >& edges,
   // // BLAGO!
 
   // Set the orientation for the ordered edges.
-  lastNode = (edges[result[0]].first == edges[result[1]].first ? edges[result[0]].first : edges[result[0]].second);
+  if (edges[result[0]].second == edges[result[1]].first or
+      edges[result[0]].second == edges[result[1]].second) {
+    lastNode = edges[result[0]].second;
+  } else {
+    lastNode = edges[result[0]].first;
+    result[0] = ~result[0];
+  }
   for (i = 1; i != nedges; ++i) {
     POLY_ASSERT(edges[result[i]].first == lastNode or edges[result[i]].second == lastNode);
     if (edges[result[i]].first == lastNode) {
-- 
2.43.0


From e890938e103a5d0bc20f1be8a707e3d93e3ed126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 12/41] fix: intersectBoundingBox compared a new intersection
 to a coordinate minus one

---
 src/polytope_tessellator_utilities.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polytope_tessellator_utilities.hh b/src/polytope_tessellator_utilities.hh
index c9f2884..d995aa2 100644
--- a/src/polytope_tessellator_utilities.hh
+++ b/src/polytope_tessellator_utilities.hh
@@ -268,8 +268,8 @@ unsigned intersectBoundingBox(const RealType* point1,
       // Make sure we're not adding the same point twice (i.e. with a corner)
       if (numIntersections == 0) addPoint = true;
       else {
-         if (std::abs(p[0] - (result.back()-1)) > tol and 
-             std::abs(p[1] - (result.back()  )) > tol ) addPoint = true;
+         if (std::abs(p[0] - result[result.size() - 2]) > tol or
+             std::abs(p[1] - result.back()) > tol ) addPoint = true;
       }
       
       if (addPoint) {
-- 
2.43.0


From 9655741a5acdf1edaf70102ddb3710bc943b0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:30 +0000
Subject: [PATCH 13/41] fix: convexHull_2d overflowed the int point hash for
 tolerances below 2^-31 of the extent

---
 src/convexHull_2d.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convexHull_2d.hh b/src/convexHull_2d.hh
index f0f9623..3674c3a 100644
--- a/src/convexHull_2d.hh
+++ b/src/convexHull_2d.hh
@@ -83,7 +83,7 @@ PLC<2, RealType>
 convexHull_2d(const std::vector<RealType>& points,
               const RealType* low,
               const RealType& dx) {
-  typedef KeyTraits::Key CoordHash;
+  typedef int64_t CoordHash;
   typedef Point2<CoordHash> PointHash;
   // typedef polytope::DimensionTraits<2, RealType>::CoordHash CoordHash;
   // typedef polytope::DimensionTraits<2, RealType>::IntPoint PointHash;
-- 
2.43.0


From b8738eec90101c5005c0b460b1cf7ee5af316dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:30 +0000
Subject: [PATCH 14/41] fix: convexHull_3d facets indexed the unique points
 instead of the input points

---
 src/convexHull_3d.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/convexHull_3d.hh b/src/convexHull_3d.hh
index 9114d7a..b41bd44 100644
--- a/src/convexHull_3d.hh
+++ b/src/convexHull_3d.hh
@@ -418,15 +418,21 @@ convexHull_3d(const std::vector<RealType>& points,
     // std::cerr << "  --> " << remainingPoints.size() << std::endl;
   }
 
+  // Map the unique points back to the (first) input points they came from.
+  std::vector<int> uniqueToInput(nunique, -1);
+  for (unsigned i = 0; i != pointMap.size(); ++i) {
+    if (uniqueToInput[pointMap[i]] == -1) uniqueToInput[pointMap[i]] = i;
+  }
+
   // Read out the data to the PLC and we're done.
   PLC<3, RealType> plc;
   for (typename FacetSet::iterator facetItr = workingFacets.begin();
        facetItr != workingFacets.end();
        ++facetItr) {
     plc.facets.push_back(std::vector<int>());
-    plc.facets.back().push_back(pointMap[facetItr->inode]);
-    plc.facets.back().push_back(pointMap[facetItr->jnode]);
-    plc.facets.back().push_back(pointMap[facetItr->knode]);
+    plc.facets.back().push_back(uniqueToInput[facetItr->inode]);
+    plc.facets.back().push_back(uniqueToInput[facetItr->jnode]);
+    plc.facets.back().push_back(uniqueToInput[facetItr->knode]);
   }
   return plc;
 }
-- 
2.43.0


From 15a5226c15968174d84c10aa63e8117198866def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 15/41] fix: within ignored the facets of the PLC and read the
 vertices as one contiguous run

---
 src/within.hh | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/within.hh b/src/within.hh
index ad7543e..00eb776 100644
--- a/src/within.hh
+++ b/src/within.hh
@@ -33,13 +33,19 @@ struct WithinBoundaryFunctor<2, RealType> {
 		  const RealType* vertices,
 		  const std::vector<std::vector<int> >& facets) {
     const unsigned numFacets = facets.size();
-    unsigned i = facets[0][0];
+
+    // Gather the vertices in the order the facets walk them
+    std::vector<RealType> loop;
+    for (unsigned ifacet = 0; ifacet != numFacets; ++ifacet) {
+      loop.push_back(vertices[2*facets[ifacet][0]  ]);
+      loop.push_back(vertices[2*facets[ifacet][0]+1]);
+    }
 
     // Check if point is on the boundary of the facet
-    bool onBoundary = geometry::pointOnPolygon(point, numFacets, &vertices[2*i]);
+    bool onBoundary = geometry::pointOnPolygon(point, numFacets, &loop.front());
 
     // Check if point is on the interior
-    bool inBoundary = geometry::pointInPolygon(point, numFacets, &vertices[2*i]);
+    bool inBoundary = geometry::pointInPolygon(point, numFacets, &loop.front());
 
     if (onBoundary)                        return 2;
     else if(inBoundary and not onBoundary) return 1;
-- 
2.43.0


From 3c19683374a57c88fe199a3f2585a6765eaedcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 16/41] fix: collinear(cloud) called any cloud starting with a
 repeated point collinear

---
 src/polytope_geometric_utilities.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/polytope_geometric_utilities.hh b/src/polytope_geometric_utilities.hh
index 1bfad65..625d3f2 100644
--- a/src/polytope_geometric_utilities.hh
+++ b/src/polytope_geometric_utilities.hh
@@ -481,12 +481,16 @@ bool
 collinear(const std::vector<RealType> points, const RealType tol) {
   POLY_ASSERT(points.size() % Dimension == 0);
   bool isCollinear = true;
-  int i;
+  int i, j;
   if (points.size()/Dimension > 1) {
-    i = 2;
+    // The line runs through the first point and the first one distinct from it.
+    j = 1;
+    while (j < int(points.size()/Dimension) and
+           std::equal(&points[0], &points[0] + Dimension, &points[Dimension*j])) ++j;
+    i = j + 1;
     while (isCollinear and i < int(points.size()/Dimension)) {
       isCollinear *= collinear<Dimension, RealType>(&points[0],
-						    &points[Dimension],
+						    &points[Dimension*j],
 						    &points[Dimension*i],
 						    tol);
       ++i;
-- 
2.43.0


From 0ed5a5396aab73dfbe6ac434ab25cbf14f2421c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 17/41] fix: 3D faceCentroid indexed the face by its own node
 numbers

---
 src/DimensionTraits.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DimensionTraits.hh b/src/DimensionTraits.hh
index a84190e..cc2c168 100644
--- a/src/DimensionTraits.hh
+++ b/src/DimensionTraits.hh
@@ -122,7 +122,7 @@ struct DimensionTraits<3, RealType> {
     for (typename std::vector<unsigned>::const_iterator itr = mesh.faces[iface].begin();
          itr != mesh.faces[iface].end();
          ++itr) {
-      ni = mesh.faces[iface][*itr];
+      ni = *itr;
       pface[0] += mesh.nodes[3*ni];
       pface[1] += mesh.nodes[3*ni + 1];
       pface[2] += mesh.nodes[3*ni + 2];
-- 
2.43.0


From e3d2f192545a5a4046188eda33d02b1806a808b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 18/41] fix: IntPointMap::have ignored all but the last pair of
 coordinates in 3D

---
 src/IntPointMap.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/IntPointMap.hh b/src/IntPointMap.hh
index edec07c..32b9332 100644
--- a/src/IntPointMap.hh
+++ b/src/IntPointMap.hh
@@ -162,6 +162,7 @@ struct IntPointMap {
           // If the intersection is empty, we have a new distinct point.
           return false;
         }
+        matchingIDs = intersection;
       }
     }
 
-- 
2.43.0


From 9241dda1457f8ab54b2a89c46d8263d433cca8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 19/41] fix: 2D simplifyPLCfacets could reverse the direction
 of the boundary loop

---
 src/simplifyPLCfacets.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 3fe1459..4308963 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -51,8 +51,8 @@ simplifyPLCfacets(const PLC<2, RealType>& plc,
   std::vector<EdgeHash> inputEdges(noldfacets);
   for (unsigned i = 0; i != noldfacets; ++i) {
     POLY_ASSERT(plc.facets[i].size() == 2);
-    inputEdges[i] = internal::hashEdge(old2new[plc.facets[i][0]], 
-                                       old2new[plc.facets[i][1]]);
+    inputEdges[i] = EdgeHash(old2new[plc.facets[i][0]],      // Not sorted, so the first facet sets
+                             old2new[plc.facets[i][1]]);     // the direction of the result.
   }
   std::vector<int> inputEdgeOrder;
   internal::computeSortedFaceEdges(inputEdges, inputEdgeOrder);
-- 
2.43.0


From 50627210371105ea7367424f8768a76e5ee53332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 20/41] fix: 3D simplifyPLCfacets could flip facets whose first
 corner is not convex

---
 src/simplifyPLCfacets.hh | 46 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/simplifyPLCfacets.hh b/src/simplifyPLCfacets.hh
index 4308963..9d80d51 100644
--- a/src/simplifyPLCfacets.hh
+++ b/src/simplifyPLCfacets.hh
@@ -194,15 +194,18 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       if (j == plc.facets[i].size()) {
         facetUsed[i] = 1;
       } else {
-        k3 = plc.facets[i][j];
-        RealType a[3] = {points[3*k3  ] - points[3*k1  ],
-                         points[3*k3+1] - points[3*k1+1],
-                         points[3*k3+2] - points[3*k1+2]},
-                 b[3] = {points[3*k2  ] - points[3*k1  ],
-                         points[3*k2+1] - points[3*k1+1],
-                         points[3*k2+2] - points[3*k1+2]};
-          geometry::cross<3, RealType>(b, a, &facetNormals[i].x);
-          facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
+        // Sum the normal around the facet, which may not be convex.
+        const PointType p1(points[3*k1], points[3*k1+1], points[3*k1+2]);
+        for (unsigned k = 0; k != plc.facets[i].size(); ++k) {
+          k2 = plc.facets[i][k];
+          k3 = plc.facets[i][(k + 1) % plc.facets[i].size()];
+          const PointType a = PointType(points[3*k2], points[3*k2+1], points[3*k2+2]) - p1,
+                          b = PointType(points[3*k3], points[3*k3+1], points[3*k3+2]) - p1;
+          PointType ab;
+          geometry::cross<3, RealType>(&a.x, &b.x, &ab.x);
+          facetNormals[i] += ab;
+        }
+        facetNormalMag[i] = sqrt(double(geometry::dot<3, RealType>(&facetNormals[i].x, &facetNormals[i].x)));
       }
     }
   }
@@ -301,20 +304,17 @@ simplifyPLCfacets(const PLC<3, RealType>& plc,
       POLY_ASSERT(newfacet.size() >= 3);
 
       // Do we need to reverse the ordering of this facet?
-      const PointType a0(points[3*plc.facets[i][0]], points[3*plc.facets[i][0]+1], points[3*plc.facets[i][0]+2]), 
-                      b0(points[3*plc.facets[i][1]], points[3*plc.facets[i][1]+1], points[3*plc.facets[i][1]+2]), 
-                      c0(points[3*plc.facets[i][2]], points[3*plc.facets[i][2]+1], points[3*plc.facets[i][2]+2]), 
-                      a1(result.points[3*newfacet[0]], result.points[3*newfacet[0]+1], result.points[3*newfacet[0]+2]), 
-                      b1(result.points[3*newfacet[1]], result.points[3*newfacet[1]+1], result.points[3*newfacet[1]+2]), 
-                      c1(result.points[3*newfacet[2]], result.points[3*newfacet[2]+1], result.points[3*newfacet[2]+2]),
-                      ab0 = b0 - a0,
-                      ac0 = c0 - a0,
-                      ab1 = b1 - a1,
-                      ac1 = c1 - a1;
-      PointType oldnorm, newnorm;
-      geometry::cross<3, RealType>(&ab0.x, &ac0.x, &oldnorm.x);
-      geometry::cross<3, RealType>(&ab1.x, &ac1.x, &newnorm.x);
-      if (geometry::dot<3, RealType>(&oldnorm.x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
+      const PointType p1(result.points[3*newfacet[0]], result.points[3*newfacet[0]+1], result.points[3*newfacet[0]+2]);
+      PointType newnorm;
+      for (unsigned j = 1; j + 1 < newfacet.size(); ++j) {
+        const unsigned k2 = newfacet[j], k3 = newfacet[j + 1];
+        const PointType a = PointType(result.points[3*k2], result.points[3*k2+1], result.points[3*k2+2]) - p1,
+                        b = PointType(result.points[3*k3], result.points[3*k3+1], result.points[3*k3+2]) - p1;
+        PointType ab;
+        geometry::cross<3, RealType>(&a.x, &b.x, &ab.x);
+        newnorm += ab;
+      }
+      if (geometry::dot<3, RealType>(&facetNormals[i].x, &newnorm.x) < 0) std::reverse(newfacet.begin(), newfacet.end());
     }
   }
   POLY_ASSERT(result.facets.size() >= 4);
-- 
2.43.0


From 801b68be9404e25f4f75e9b81ec3f4466bbd7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 21/41] fix: removeCollinearPoints read before the start of the
 polygon

---
 src/clipQuantizedTessellation2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 6a3b36d..667db75 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -37,7 +37,7 @@ removeCollinearPoints(bp::polygon_data<IntType>& poly) {
   std::vector<Point> points;
   Segment segment;
   for (int i = 0; i != n-1; ++i) {
-    segment = bp::construct<Segment>(*(poly.begin()+(i-1)%n), *(poly.begin()+(i+1)%n));
+    segment = bp::construct<Segment>(*(poly.begin()+(i == 0 ? n-2 : i-1)), *(poly.begin()+(i+1)%n));
     if (!bp::contains(segment, *(poly.begin() + i))) points.push_back(*(poly.begin() + i));
   }
   POLY_ASSERT2(points.size() >= 3, points.size());
-- 
2.43.0


From a28f607f314f84143ca07a1b71a0803a2bed9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 22/41] fix: an orphaned fragment that another cell touches at
 a single point was lost

---
 src/clipQuantizedTessellation2d.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/clipQuantizedTessellation2d.cc b/src/clipQuantizedTessellation2d.cc
index 667db75..4d04747 100644
--- a/src/clipQuantizedTessellation2d.cc
+++ b/src/clipQuantizedTessellation2d.cc
@@ -274,6 +274,21 @@ void clipQuantizedTessellation(QuantizedTessellation2d<IntType, RealType>& qmesh
     }
     POLY_ASSERT(neighbors.size() > 0);
 
+    // Drop any cell that does not share an edge with the orphan (such as one that only touches it at a
+    // point): no part of the orphan can become part of such a cell.
+    for (std::set<unsigned>::iterator itr = neighbors.begin(); itr != neighbors.end();) {
+      PolygonSet set1, set2, trialunion;
+      set1 += orphan;
+      set2 += cellPolygons[*itr];
+      bp::assign(trialunion, set1 | set2);
+      if (trialunion.size() == 1) {
+        ++itr;
+      } else {
+        neighbors.erase(itr++);
+      }
+    }
+    POLY_ASSERT(neighbors.size() > 0);
+
     // Find the overall boundary of the orphan unioned with all the neighbors, and accumulate the
     // local generator positions.
     vector<IntPoint> localgenerators;
-- 
2.43.0


From c8b0f41114a169a4d87f0f4632c979fa1a2bb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 23/41] fix: scale the hash spacing of shared elements by the
 domain size (DistributedTessellator ordered them inconsistently in domains
 wider than 8 units)

---
 src/DistributedTessellator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index afed0ed..3557d23 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -445,7 +445,7 @@ computeDistributedTessellation(const vector<RealType>& points,
 
     // Compute the bounding box for the mesh coordinates.
     this->computeBoundingBox(mesh.nodes, rlow, rhigh);
-    const RealType dx = mSerialTessellator->degeneracy();
+    const RealType dx = mSerialTessellator->degeneracy()*DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh);
     // const RealType dx = DimensionTraits<Dimension, RealType>::maxLength(rlow, rhigh)/(1LL << 34);
     
     // Sort the shared elements.  This should make the ordering consistent on all domains without communication.
-- 
2.43.0


From 09951ad09eb039018b2e575391c5fcdacd5a0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 24/41] fix: unbounded tessellation of a single (or coincident)
 generator divided by a zero length and crashed

---
 src/QuantizedTessellation2d.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/QuantizedTessellation2d.cc b/src/QuantizedTessellation2d.cc
index 4912c75..e728bd5 100644
--- a/src/QuantizedTessellation2d.cc
+++ b/src/QuantizedTessellation2d.cc
@@ -6,6 +6,7 @@
 //------------------------------------------------------------------------
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 #include <map>
 
 #include "QuantizedTessellation2d.hh"
@@ -24,6 +25,10 @@ QuantizedTessellation2d(const std::vector<RealType>& points,
                         const std::vector<RealType>& boundaryPoints) {
   geometry::computeBoundingBox<2, RealType>(&boundaryPoints[0], boundaryPoints.size(), true, xmin, xmax);
   length = std::max(xmax[0] - xmin[0], xmax[1] - xmin[1]);
+  if (length == 0) {
+    // All the points coincide, so there is no length scale to go by.
+    length = std::max(RealType(1), std::max(std::abs(xmin[0]), std::abs(xmin[1])));
+  }
   xmin[0] -= 2.0*length;
   xmin[1] -= 2.0*length;
   xmax[0] += 2.0*length;
-- 
2.43.0


From 2c95f5f572311c16604b5010ad418d577f742fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 25/41] fix: DistributedTessellator without communication info
 read shared element lists that were never built

---
 src/DistributedTessellator.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DistributedTessellator.cc b/src/DistributedTessellator.cc
index 3557d23..a4041b5 100644
--- a/src/DistributedTessellator.cc
+++ b/src/DistributedTessellator.cc
@@ -548,6 +548,9 @@ computeDistributedTessellation(const vector<RealType>& points,
   }
 
 
+  // If the communication info was not requested we have no shared elements to report.
+  if (not mBuildCommunicationInfo) mesh.neighborDomains.clear();
+
   // Remove any neighbors we don't actually share any info with.
   unsigned numNeighbors = mesh.neighborDomains.size();
   for (int i = numNeighbors - 1; i != -1; --i) {
@@ -737,9 +740,11 @@ computeDistributedTessellation(const vector<RealType>& points,
 
   // Post-conditions.
 #ifdef DEBUG_MODE
-  const string msg = checkDistributedTessellation(mesh);
-  if (msg != "ok" and rank == 0) cerr << msg;
-  POLY_ASSERT(msg == "ok");
+  if (mBuildCommunicationInfo) {
+    const string msg = checkDistributedTessellation(mesh);
+    if (msg != "ok" and rank == 0) cerr << msg;
+    POLY_ASSERT(msg == "ok");
+  }
 #endif
 }
 
-- 
2.43.0


From 0fe2eb08675ca67a82cc3f849a80f7e44f30a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 26/41] fix: polytope_tessellation_new left face_cells
 uninitialised, so freeing an unused tessellation freed garbage

---
 polytope_c/polytope_tessellation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2414762..1b5d1af 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -24,6 +24,7 @@ polytope_tessellation_t* polytope_tessellation_new(int dimension)
   tess->num_faces = 0;
   tess->face_offsets = NULL;
   tess->face_nodes = NULL;
+  tess->face_cells = NULL;
   tess->num_neighbor_domains = 0;
   tess->neighbor_domains = NULL;
   tess->shared_node_domain_offsets = NULL;
-- 
2.43.0


From 940bbf34fcdc137a2f3e077db315d2934d13e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 27/41] fix: polytope_tessellation_clear kept pointers to
 arrays it freed, so clearing twice or clearing and freeing freed them twice

---
 polytope_c/polytope_tessellation.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 1b5d1af..2b12d3f 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -79,14 +79,19 @@ void polytope_tessellation_clear(polytope_tessellation_t* tessellation)
   if (tessellation->boundary_nodes != NULL)
   {
     free(tessellation->boundary_nodes);
+    tessellation->num_boundary_nodes = 0;
+    tessellation->boundary_nodes = NULL;
   }
   if (tessellation->boundary_faces != NULL)
   {
     free(tessellation->boundary_faces);
+    tessellation->num_boundary_faces = 0;
+    tessellation->boundary_faces = NULL;
   }
   if (tessellation->face_cells != NULL)
   {
     free(tessellation->face_cells);
+    tessellation->face_cells = NULL;
   }
   if (tessellation->neighbor_domains != NULL)
   {
-- 
2.43.0


From 4002d6e0a6bcdc2070ffc497028a3e68147ee6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 28/41] fix: polytope_tessellation_snprintf appended to an
 uninitialised string and ignored its length

---
 polytope_c/polytope_tessellation.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/polytope_c/polytope_tessellation.cc b/polytope_c/polytope_tessellation.cc
index 2b12d3f..f6ed71b 100644
--- a/polytope_c/polytope_tessellation.cc
+++ b/polytope_c/polytope_tessellation.cc
@@ -135,9 +135,9 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 {
   POLY_ASSERT(tessellation != NULL);
 
-  char fmt[128];
-  snprintf(fmt, 128, "Tessellation (%d)", static_cast<int>(sizeof(str) - strlen(str) - 1));
-  strncat(str, fmt, sizeof(str) - strlen(str));
+  snprintf(str, n, "Tessellation (%dD, %d cells, %d faces, %d nodes)\n", 
+           tessellation->dimension, tessellation->num_cells, 
+           tessellation->num_faces, tessellation->num_nodes);
 }
 //------------------------------------------------------------------------
 
@@ -145,13 +145,9 @@ void polytope_tessellation_snprintf(polytope_tessellation_t* tessellation, char*
 void polytope_tessellation_fprintf(polytope_tessellation_t* tessellation, FILE* stream)
 {
   POLY_ASSERT(tessellation != NULL);
-  // Let's assume, for the moment, that the output of our tessellation scales with the
-  // number of cells.
-  int n = 512 * tessellation->num_cells;
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_tessellation_snprintf(tessellation, str, n);
+  char str[256];
+  polytope_tessellation_snprintf(tessellation, str, 256);
   fprintf(stream, "%s", str);
-  free(str);
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From b6329cab1e7aa09013aaaacd708162efc5098213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 29/41] fix: polytope_plc_fprintf printed uninitialised memory
 since polytope_plc_snprintf wrote nothing

---
 polytope_c/polytope_plc.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/polytope_c/polytope_plc.cc b/polytope_c/polytope_plc.cc
index 75d363a..41d5296 100644
--- a/polytope_c/polytope_plc.cc
+++ b/polytope_c/polytope_plc.cc
@@ -191,7 +191,13 @@ bool polytope_plc_valid(polytope_plc_t* plc)
 //------------------------------------------------------------------------
 void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 {
-  // FIXME
+  POLY_ASSERT(plc != NULL);
+  const vector<vector<int> >& facets = (plc->plc2 != NULL) ? plc->plc2->facets 
+                                                           : plc->plc3->facets;
+  const vector<vector<vector<int> > >& holes = (plc->plc2 != NULL) ? plc->plc2->holes 
+                                                                   : plc->plc3->holes;
+  snprintf(str, n, "PLC (%dD, %d facets, %d holes)\n", (plc->plc2 != NULL) ? 2 : 3,
+           static_cast<int>(facets.size()), static_cast<int>(holes.size()));
 }
 //------------------------------------------------------------------------
 
@@ -199,14 +205,9 @@ void polytope_plc_snprintf(polytope_plc_t* plc, char* str, int n)
 void polytope_plc_fprintf(polytope_plc_t* plc, FILE* stream)
 {
   POLY_ASSERT(plc != NULL);
-  // Let's assume, for the moment, that the output of our PLC scales with the 
-  // number of facets.
-  int n = (plc->plc2 != NULL) ? 128 * plc->plc2->facets.size()
-                               : 128 * plc->plc3->facets.size();
-  char* str = (char*)malloc(n * sizeof(char));
-  polytope_plc_snprintf(plc, str, n);
+  char str[128];
+  polytope_plc_snprintf(plc, str, 128);
   fprintf(stream, "%s", str);
-  free(str);
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From 0f2665c9360dbbc558aa5784a410b25358babe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 30/41] fix: polytope_tessellator_name returned a pointer into
 a temporary string

---
 polytope_c/polytope_tessellator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/polytope_c/polytope_tessellator.cc b/polytope_c/polytope_tessellator.cc
index df67df5..963f475 100644
--- a/polytope_c/polytope_tessellator.cc
+++ b/polytope_c/polytope_tessellator.cc
@@ -1,3 +1,6 @@
+#include <map>
+#include <string>
+
 #include "polytope_c.h"
 #include "polytope.hh"
 #include "BoostTessellator.hh"
@@ -323,10 +326,11 @@ bool polytope_tessellator_handles_plcs(polytope_tessellator_t* tessellator)
 //------------------------------------------------------------------------
 const char* polytope_tessellator_name(polytope_tessellator_t* tessellator)
 {
-  if (tessellator->tess2 != NULL)
-    return tessellator->tess2->name().c_str();
-  else
-    return tessellator->tess3->name().c_str();
+  // name() returns a temporary, so hold on to the string we hand out.
+  static map<string, string> names;
+  string name = (tessellator->tess2 != NULL) ? tessellator->tess2->name() 
+                                             : tessellator->tess3->name();
+  return names.insert(make_pair(name, name)).first->second.c_str();
 }
 //------------------------------------------------------------------------
 
-- 
2.43.0


From 2c540c180eddec5928c1a8a91009150a8b6d96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 31/41] fix: silo files listed the first cell of each face
 twice instead of both its cells

---
 src/SiloWriter_2d.cc | 2 +-
 src/SiloWriter_3d.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 0a1449d..7b76815 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -315,7 +315,7 @@ write(const Tessellation<2, RealType>& mesh,
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
     conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].size() == 2 ? mesh.faceCells[f][1] : -1);
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 70ddaed..fb86dc3 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -352,7 +352,7 @@ write(const Tessellation<3, RealType>& mesh,
   for (int f = 0; f < mesh.faceCells.size(); ++f)
   {
     conn.push_back(mesh.faceCells[f][0]);
-    conn.push_back(mesh.faceCells[f][0]);
+    conn.push_back(mesh.faceCells[f].size() == 2 ? mesh.faceCells[f][1] : -1);
   }
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
-- 
2.43.0


From 3036a046f69a96a674d6d6e3e96e47a88df058ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 32/41] fix: lengths of the cell-face and face-cell lists in
 silo files did not match the lists

---
 src/SiloWriter_2d.cc | 2 +-
 src/SiloWriter_3d.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 7b76815..7354844 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -320,7 +320,7 @@ write(const Tessellation<2, RealType>& mesh,
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index fb86dc3..c80c69b 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -357,7 +357,7 @@ write(const Tessellation<3, RealType>& mesh,
   elemnames[0] = strDup("ncellfaces");
   elemlengths[0] = numCells;
   elemnames[2] = strDup("facecells");
-  elemlengths[2] = conn.size() - 2*mesh.faces.size();
+  elemlengths[2] = 2*mesh.faceCells.size();
   elemnames[1] = strDup("cellfaces");
   elemlengths[1] = conn.size() - elemlengths[2] - elemlengths[0];
   DBPutCompoundarray(file, "conn", elemnames, elemlengths, 3, 
-- 
2.43.0


From 6eb6c59fb2d5780bd86e0570c22b02aa8375180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 33/41] fix: tags were written to silo files without their
 names

---
 src/SiloUtils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SiloUtils.cc b/src/SiloUtils.cc
index 97e51b4..e77a4f6 100644
--- a/src/SiloUtils.cc
+++ b/src/SiloUtils.cc
@@ -37,8 +37,7 @@ writeTagsToFile(const map<string, vector<int>*>& tags,
   {
     vector<int>& tag = *iter->second;
     elemLengths.push_back(static_cast<int>(tag.size()));
-    string tagName;
-    elemNames.push_back(strDup(tagName.c_str()));
+    elemNames.push_back(strDup(iter->first.c_str()));
     for (size_t i = 0; i < tag.size(); ++i)
       tagData.push_back(tag[i]);
   }
-- 
2.43.0


From 1c974c907a6c110dbbb30ab6e71f16f3d523d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 34/41] fix: ranks sharing a silo file erased what earlier
 ranks had written to it

---
 src/SiloWriter_2d.cc | 2 +-
 src/SiloWriter_3d.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index 7354844..e49c3d9 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -92,7 +92,7 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index c80c69b..32dec72 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -117,7 +117,7 @@ PMPIO_openFile(const char* filename,
   DBfile* file;
   if (iomode == PMPIO_WRITE)
   { 
-    file = DBCreate(filename, 0, DB_LOCAL, 0, driver);
+    file = DBOpen(filename, driver, DB_APPEND);
     DBMkDir(file, dirname);
     DBSetDir(file, dirname);
   }
-- 
2.43.0


From 5920d6d9944051976cf6d3367d038fb820ced8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 35/41] fix: the 3D silo master file was not written to the
 requested directory

---
 src/SiloWriter_3d.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index 32dec72..e2fb5da 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -501,9 +501,9 @@ write(const Tessellation<3, RealType>& mesh,
   {
     char masterFileName[1024];
     if (cycle >= 0)
-      snprintf(masterFileName, 1024, "%s-%d/%s-%d.silo", prefix.c_str(), nproc, prefix.c_str(), cycle);
+      snprintf(masterFileName, 1024, "%s/%s-%d.silo", masterDirName.c_str(), prefix.c_str(), cycle);
     else
-      snprintf(masterFileName, 1024, "%s-%d/%s.silo", prefix.c_str(), nproc, prefix.c_str());
+      snprintf(masterFileName, 1024, "%s/%s.silo", masterDirName.c_str(), prefix.c_str());
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-- 
2.43.0


From 82c194d999b5f20f2fa8418741776f949e7389af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 36/41] fix: silo master and group files left out ranks when
 the number of files does not divide the number of ranks

---
 src/SiloWriter_2d.cc | 27 ++++++++++++++-------------
 src/SiloWriter_3d.cc | 27 ++++++++++++++-------------
 2 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/SiloWriter_2d.cc b/src/SiloWriter_2d.cc
index e49c3d9..50a40a0 100644
--- a/src/SiloWriter_2d.cc
+++ b/src/SiloWriter_2d.cc
@@ -398,7 +398,7 @@ write(const Tessellation<2, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  int numChunks = nproc / numFiles + (groupRank < nproc % numFiles ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -466,16 +466,17 @@ write(const Tessellation<2, RealType>& mesh,
     // cerr << "Opening MASTER file " << masterFileName << endl;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames;
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
         edgeFields.size() +
         faceFields.size() +
         cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      int numFileChunks = nproc / numFiles + (i < nproc % numFiles ? 1 : 0);
+      for (int c = 0; c < numFileChunks; ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -483,7 +484,7 @@ write(const Tessellation<2, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames.push_back(strDup(meshName));
 
         // Field data.
         int fieldIndex = 0;
@@ -502,21 +503,21 @@ write(const Tessellation<2, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
         &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
diff --git a/src/SiloWriter_3d.cc b/src/SiloWriter_3d.cc
index e2fb5da..ae50536 100644
--- a/src/SiloWriter_3d.cc
+++ b/src/SiloWriter_3d.cc
@@ -440,7 +440,7 @@ write(const Tessellation<3, RealType>& mesh,
 
 #ifdef HAVE_MPI
   // Write the multi-block objects to the file if needed.
-  int numChunks = nproc / numFiles;
+  int numChunks = nproc / numFiles + (groupRank < nproc % numFiles ? 1 : 0);
   if (rankInGroup == 0)
   {
     vector<char*> meshNames(numChunks);
@@ -507,16 +507,17 @@ write(const Tessellation<3, RealType>& mesh,
     int driver = DB_HDF5;
     DBfile* file = DBCreate(masterFileName, DB_CLOBBER, DB_LOCAL, "Master file", driver);
 
-    vector<char*> meshNames(numFiles*numChunks);
-    vector<int> meshTypes(numFiles*numChunks, DB_UCDMESH);
+    vector<char*> meshNames;
+    vector<int> meshTypes(nproc, DB_UCDMESH);
     vector<vector<char*> > varNames(nodeFields.size() +
                                     edgeFields.size() +
                                     faceFields.size() +
                                     cellFields.size());
-    vector<int> varTypes(numFiles*numChunks, DB_UCDVAR);
+    vector<int> varTypes(nproc, DB_UCDVAR);
     for (int i = 0; i < numFiles; ++i)
     {
-      for (int c = 0; c < numChunks; ++c)
+      int numFileChunks = nproc / numFiles + (i < nproc % numFiles ? 1 : 0);
+      for (int c = 0; c < numFileChunks; ++c)
       {
         // Mesh.
         char meshName[1024];
@@ -524,7 +525,7 @@ write(const Tessellation<3, RealType>& mesh,
           snprintf(meshName, 1024, "%d/%s-%d.silo:/domain_%d/mesh", i, prefix.c_str(), cycle, c);
         else
           snprintf(meshName, 1024, "%d/%s.silo:/domain_%d/mesh", i, prefix.c_str(), c);
-        meshNames[i*numChunks+c] = strDup(meshName);
+        meshNames.push_back(strDup(meshName));
 
         // Field data.
         int fieldIndex = 0;
@@ -543,21 +544,21 @@ write(const Tessellation<3, RealType>& mesh,
       DBAddOption(optlist, DBOPT_DTIME, &dtime);
 
     // Write the multimesh and variable data, and close the file.
-    DBPutMultimesh(file, "mesh", numFiles*numChunks, &meshNames[0], 
+    DBPutMultimesh(file, "mesh", nproc, &meshNames[0], 
                    &meshTypes[0], optlist);
     int fieldIndex = 0;
-    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
-    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, numFiles*numChunks, optlist);
+    putMultivarInFile<RealType>(nodeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(edgeFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(faceFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
+    putMultivarInFile<RealType>(cellFields, fieldIndex, varNames, varTypes, file, nproc, optlist);
     DBClose(file);
 
     // Clean up.
     DBFreeOptlist(optlist);
-    for (int i = 0; i < numFiles*numChunks; ++i)
+    for (int i = 0; i < nproc; ++i)
       free(meshNames[i]);
     for (int f = 0; f < varNames.size(); ++f)
-      for (int i = 0; i < numFiles*numChunks; ++i)
+      for (int i = 0; i < nproc; ++i)
         free(varNames[f][i]);
   }
 #else
-- 
2.43.0


From c84c821d479d3ed90633d079e9a10fbe146c2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 37/41] fix: 2D CSG reversed one half of every segment it split

---
 src/PLC_CSG_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index 5b30dc5..ccbe6ad 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -209,14 +209,14 @@ void Line<RealType>::splitSegment(const Segment<RealType>& segment,
       Vertex<RealType> vi = segment.vertices[0], vj = segment.vertices[1];
       if (ti != BACK) f.push_back(vi);
       if (ti != FRONT) b.push_back(vi);
-      if (tj != BACK) f.push_back(vj);
-      if (tj != FRONT) b.push_back(vj);
       if ((ti | tj) == SPANNING) {
         double t = (this->w - dot(this->normal, vi.pos)) / dot(this->normal, vj.pos - vi.pos);
         Vertex<RealType> v = interpolate(vi, vj, t);
         f.push_back(v);
         b.push_back(v);
       }
+      if (tj != BACK) f.push_back(vj);
+      if (tj != FRONT) b.push_back(vj);
       if (f.size() == 2) front.push_back(Segment<RealType>(f));
       if (b.size() == 2) back.push_back(Segment<RealType>(b));
       break;
-- 
2.43.0


From eee8ec790a5058954991a9b3e2a10dacde8a09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 38/41] fix: 2D csg_union leaked its BSP trees

---
 src/PLC_CSG_2d.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index ccbe6ad..ac94ae0 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -429,9 +429,9 @@ ReducedPLC<2, RealType> csg_union(const ReducedPLC<2, RealType>& a,
   Node<RealType>* B = new Node<RealType>(ReducedPLCtoSegments(b));
   Node<RealType>* AB = csg_union(A, B);                                  // <-- only difference
   std::vector<Segment<RealType> > segments = AB->allSegments();
-  // delete A; A = 0;
-  // delete B; B = 0;
-  // delete AB; AB = 0;
+  delete A; A = 0;
+  delete B; B = 0;
+  delete AB; AB = 0;
   return ReducedPLCfromSegments(segments);
 }
 
-- 
2.43.0


From 03cb42c458c8700dba1fb61c39c15a65c5b53dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 39/41] fix: 3D CSG with an empty result read past an empty
 list

---
 src/PLC_CSG_2d.hh | 2 +-
 src/PLC_CSG_3d.hh | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PLC_CSG_2d.hh b/src/PLC_CSG_2d.hh
index ac94ae0..d0d05a4 100644
--- a/src/PLC_CSG_2d.hh
+++ b/src/PLC_CSG_2d.hh
@@ -402,7 +402,7 @@ ReducedPLCfromSegments(const std::vector<Segment<RealType> >& segments) {
   // typedef Point2<RealType> PointType;
   ReducedPLC<2, RealType> result;
   const unsigned nfacets = segments.size();
-  POLY_ASSERT(nfacets >= 3);
+  POLY_ASSERT(nfacets == 0 or nfacets >= 3);
   for (size_t i = 0; i != nfacets; ++i) {
     POLY_ASSERT(segments[i].vertices.size() == 2);
     result.facets.push_back(std::vector<int>());
diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 12653f4..1673af8 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -435,6 +435,9 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
   typedef uint64_t PointHash;
   const RealType tol = Plane<RealType>::EPSILON;
 
+  // An empty solid has no bounding box.
+  if (polys.empty()) return ReducedPLC<3, RealType>();
+
   // Find the bounding box for the vertex coordinates.
   const unsigned npolys = polys.size();
   POLY_ASSERT(npolys >= 4);
-- 
2.43.0


From 0e85b1708ef9aadf7ea70dacadbad5cb029eae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 40/41] fix: 3D CSG left T junctions between facets and could
 misorder points along an edge

---
 src/PLC_CSG_3d.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PLC_CSG_3d.hh b/src/PLC_CSG_3d.hh
index 1673af8..e7c9418 100644
--- a/src/PLC_CSG_3d.hh
+++ b/src/PLC_CSG_3d.hh
@@ -509,6 +509,7 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
       unsigned k = (j + 1) % n;
       const unsigned a = result.facets[i][j], b = result.facets[i][k];
       newfacet.push_back(a);
+      const unsigned firstNew = newfacet.size();
       std::set<int> checkNeighbors, usedNeighbors;
       // for (unsigned v = 0; v != result.points.size()/3; ++v) checkNeighbors.insert(b);
       std::set_union(neighbors[a].begin(), neighbors[a].end(), neighbors[b].begin(), neighbors[b].end(), std::inserter(checkNeighbors, checkNeighbors.end()));
@@ -527,13 +528,17 @@ ReducedPLCfromPolygons(const std::vector<Polygon<RealType> >& polys) {
             //           << result.points[3*a] << " " << result.points[3*a+1] << " " << result.points[3*a+2] << ") ("
             //           << result.points[3*b] << " " << result.points[3*b+1] << " " << result.points[3*b+2] << ")" << std::endl;
             newfacet.push_back(v);
+          }
+          // Keep walking along the line through this edge: the facets on the
+          // other side may only be reached beyond its ends.
+          if (geometry::collinear<3, RealType>(&result.points[3*a], &result.points[3*b], &result.points[3*v], tol)) {
             std::copy(neighbors[v].begin(), neighbors[v].end(), std::inserter(newNeighbors, newNeighbors.end()));
           }
         }
         checkNeighbors = std::set<int>();
         std::set_difference(newNeighbors.begin(), newNeighbors.end(), usedNeighbors.begin(), usedNeighbors.end(), std::inserter(checkNeighbors, checkNeighbors.end()));
       }
-      std::sort(newfacet.begin() + j + 1, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
+      std::sort(newfacet.begin() + firstNew, newfacet.end(), _EdgePointComparator3d<RealType>(a, result.points));
     }
     POLY_ASSERT(newfacet.size() >= result.facets[i].size());
     if (newfacet.size() > result.facets[i].size()) result.facets[i] = newfacet;
-- 
2.43.0


From 658d933d7661b7a671b65a0da6402cd7fec74b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 41/41] fix: PLCs from Boost polygons lost one end of every
 hole facet

---
 src/PLC_Boost_2d.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PLC_Boost_2d.hh b/src/PLC_Boost_2d.hh
index 38d35e3..daf0029 100644
--- a/src/PLC_Boost_2d.hh
+++ b/src/PLC_Boost_2d.hh
@@ -121,9 +121,9 @@ ReducedPLCfromPolygon(const boost::geometry::model::polygon<Point2<RealType>, fa
       result.points.push_back((*itr).x);
       result.points.push_back((*itr).y);
       result.holes[ihole][ii][0] = offset + ii;
-      result.holes[ihole][ii][0] = offset + ((ii+1) % nhfacets);
+      result.holes[ihole][ii][1] = offset + ((ii+1) % nhfacets);
     }
-    POLY_ASSERT(ii == nhfacets-1);
+    POLY_ASSERT(ii == nhfacets);
     offset += ii;
   }
   return result;
-- 
2.43.0

