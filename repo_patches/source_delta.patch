From ec65e240947c1040c752981508fd2eba042455fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 001/124] fix: Vertex::isManifoldAndOriented() was false for
 every boundary vertex of a general mesh

---
 .../surface/halfedge_element_types.ipp        | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index cea15c1..242028e 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -46,21 +46,15 @@ inline bool Vertex::isBoundary() const {
   }
 }
 inline bool Vertex::isManifoldAndOriented() const {
-  // TODO this routine is actually pretty nontrivial, it probably deserves some more thought
-  // strategy: bootstrap off of the adjacency iterator, which already has functionality for nonmanifold vertices
   if(mesh->usesImplicitTwin()) return true;
-  size_t d = degree(); 
-  size_t kManif = 0; 
-  Halfedge firstHe = halfedge();
-  Halfedge currHe = firstHe;
-  do {
-    kManif++;
-    currHe = currHe.twin().next();
-    if(currHe.vertex() != *this) return false;
-    if(kManif > d) return false;
-  } while(currHe != firstHe);
-
-  return kManif == d;
+  if(!isManifold()) return false;
+
+  // all incident faces must agree on orientation across the shared edges (boundary edges are trivially oriented)
+  for(Edge e : adjacentEdges()) {
+    if(!e.isOriented()) return false;
+  }
+
+  return true;
 }
 inline bool Vertex::isManifold() const { 
   if(mesh->usesImplicitTwin()) return true;
-- 
2.43.0


From e104020ab810c639a60f0a01ce7648de8a04ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 002/124] fix: SurfaceMesh::nConnectedComponents() missed edges
 that are boundary or not consistently oriented

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..8870cd7 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.firstVertex()], vertInd[e.secondVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From 749cb6ad2022e2f44e83a792e253cfe23229e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 003/124] fix: ManifoldSurfaceMesh::genus() accounted for
 boundary loops twice

---
 src/surface/manifold_surface_mesh.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..b091b49 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -519,9 +519,8 @@ int ManifoldSurfaceMesh::eulerCharacteristic() const {
 }
 
 int ManifoldSurfaceMesh::genus() const {
-  int chi = eulerCharacteristic();
-  int boundaryLoops = nBoundaryLoops();
-  return (2 - boundaryLoops - chi) / 2;
+  // eulerCharacteristic() already counts each boundary loop as a face which caps it off
+  return (2 - eulerCharacteristic()) / 2;
 }
 
 
-- 
2.43.0


From 81729e0cdfb6d9185a0d5377554ed48ab27b9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 004/124] fix: insertVertexAlongEdge() on an edge with a
 degree-1 tail vertex

The halfedge entering the edge is then the twin of the split halfedge, and
its next pointer was written twice.
---
 src/surface/manifold_surface_mesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index b091b49..5611798 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -556,7 +556,6 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
   Halfedge heACenter = e.halfedge();
   Halfedge heBCenter = heACenter.twin();
   Halfedge heANext = heACenter.next();
-  Halfedge heBNext = heBCenter.next();
   Halfedge heAPrev = heACenter.prevOrbitFace();
   // Halfedge heBPrev = heBCenter.prevOrbitFace();
   Face fA = heACenter.face();
@@ -569,18 +568,20 @@ Halfedge ManifoldSurfaceMesh::insertVertexAlongEdge(Edge e) {
   vHalfedgeArr[newV.getIndex()] = heACenter.getIndex();
 
   // New halfedge A
+  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
   heNextArr[heANew.getIndex()] = heACenter.getIndex();
   heVertexArr[heANew.getIndex()] = oldVBottom.getIndex();
   heFaceArr[heANew.getIndex()] = fA.getIndex();
 
   // New halfedge B
+  // (if the old bottom vertex has degree 1, heBCenter is heAPrev, and its next has just been changed)
+  Halfedge heBNext = heBCenter.next();
   heNextArr[heBNew.getIndex()] = heBNext.getIndex();
   heVertexArr[heBNew.getIndex()] = newV.getIndex();
   heFaceArr[heBNew.getIndex()] = fB.getIndex();
 
   // Fix pointers for old halfedges
   heNextArr[heBCenter.getIndex()] = heBNew.getIndex();
-  heNextArr[heAPrev.getIndex()] = heANew.getIndex();
   heVertexArr[heACenter.getIndex()] = newV.getIndex();
 
   // Only set this if we broke it, to preseve boundary convention
-- 
2.43.0


From 6c289fe1f3daec2158c8a80038a0baf31e40f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 005/124] fix: switchHalfedgeSides() on an edge with a degree-1
 vertex

---
 src/surface/manifold_surface_mesh.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 5611798..d169046 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -843,11 +843,14 @@ Halfedge ManifoldSurfaceMesh::switchHalfedgeSides(Edge e) {
   Vertex vA = he.vertex();
   Vertex vB = heT.vertex();
 
+  // The neighbors may be the halfedges themselves, at a degree-1 vertex
+  auto mirror = [&](Halfedge h) { return h == he ? heT : (h == heT ? he : h); };
+
   // Set references
-  heNextArr[he.getIndex()] = heTN.getIndex();
-  heNextArr[heTP.getIndex()] = he.getIndex();
-  heNextArr[heT.getIndex()] = heN.getIndex();
-  heNextArr[heP.getIndex()] = heT.getIndex();
+  heNextArr[he.getIndex()] = mirror(heTN).getIndex();
+  heNextArr[mirror(heTP).getIndex()] = he.getIndex();
+  heNextArr[heT.getIndex()] = mirror(heN).getIndex();
+  heNextArr[mirror(heP).getIndex()] = heT.getIndex();
 
   heFaceArr[he.getIndex()] = fB.getIndex();
   heFaceArr[heT.getIndex()] = fA.getIndex();
-- 
2.43.0


From af717b1aa4e22fb706beb8ee60a715c032cb0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 006/124] fix: flip(e, preventSelfEdges=true) created
 self-edges

When the two opposite corners are the same vertex the flip makes an edge
from that vertex to itself, which is what the flag is documented to prevent.
---
 src/surface/surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 8870cd7..6521d9e 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,6 +878,8 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
+    if (vc == vd) return false;
+
     // If enabled, make sure it is not a duplicate
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
-- 
2.43.0


From 9679e975c30a5a050f8cc333bc9f5a1108df271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 007/124] fix: separateEdge() interior halfedge count,
 non-triangular faces, self-edges

The halfedge which moves to the boundary loop was still counted as interior,
the fan around the new vertex was walked assuming triangles, and separating a
self-edge silently made its vertex nonmanifold.
---
 src/surface/manifold_surface_mesh.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index d169046..07bc2d6 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -686,6 +686,11 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
   Vertex vB = he.twin().vertex();
   bool vBIsBoundary = vB.isBoundary();
 
+  // Cutting along a self-edge would leave its vertex nonmanifold
+  if (vA == vB) {
+    throw std::runtime_error("tried to separate self-edge");
+  }
+
   // Swap if needed to simplify case 2, so he.vertex() is always on boundary if any vertex is
   bool swapAB = false; // notice: only possibly swap if case 2 below
   if (vBIsBoundary && !vAIsBoundary) {
@@ -743,6 +748,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vA.getIndex()] = he.getIndex();
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
 
+    nInteriorHalfedgesCount--; // heT is now exterior
+
     modificationTick++;
     return std::tuple<Halfedge, Halfedge>{he, heN1};
   }
@@ -775,7 +782,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
@@ -789,6 +796,8 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     vHalfedgeArr[vB.getIndex()] = heN1.getIndex();
     vHalfedgeArr[vN.getIndex()] = he.getIndex();
 
+    nInteriorHalfedgesCount--; // heT is now exterior
+
     ensureEdgeHasInteriorHalfedge(he.edge());
 
     std::tuple<Halfedge, Halfedge> result{he.edge().halfedge(), heN1};
-- 
2.43.0


From 8c7572c747e1b655794f6b1d8eaae091666ed36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 008/124] fix: removeFaceAlongBoundary() interior halfedge
 count and polygonal faces

The halfedges which move to the boundary loop were still counted as interior,
and for faces of degree above three the other vertices of the face were
neither checked against the boundary nor given a boundary halfedge.
---
 src/surface/manifold_surface_mesh.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 07bc2d6..d349797 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1368,10 +1368,14 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     Face bLoop = heT.face();
 
 
-    // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
-      return false;
+    // Opposite vertices must not be bounary vertices or repeated, or this creates a nonmanifold mesh (imagine hourglass)
+    for (Halfedge he : f.adjacentHalfedges()) {
+      if (he != heB && he != heBNext && he.vertex().isBoundary()) return false;
+      for (Halfedge heOther : f.adjacentHalfedges()) {
+        if (he != heOther && he.vertex() == heOther.vertex()) return false;
+      }
     }
+    nInteriorHalfedgesCount -= f.degree();
 
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
@@ -1384,7 +1388,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
     // Vertex halfedges
     vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Halfedge he = heBNext.next(); he != heTNext; he = he.next()) {
+      ensureVertexHasBoundaryHalfedge(he.vertex());
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 1980a568e036b6fc57c598bd225476b0a440f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 009/124] fix: collapseEdgeTriangular() on an ear deleted the
 wrong vertex

For a boundary edge whose tail has degree 2, the neighboring boundary edge was
collapsed instead, which deletes a vertex that is not an end point of the edge.
---
 src/surface/manifold_surface_mesh.cpp | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index d349797..3bab835 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1066,15 +1066,38 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
   if (e.isBoundary()) {
     // Gather some values
     Halfedge heA0 = e.halfedge();
-    if (heA0.vertex().degree() == 2) {
-      heA0 = heA0.next().next();
-      e = heA0.edge();
-    }
 
     // check if edge is part of a 'pinch' triangle
     if (heA0.twin().next().next().next() == heA0.twin()) {
       return Vertex();
     }
+
+    // if the tail is the tip of an ear, remove the ear; the opposite edge becomes a boundary edge
+    if (heA0.vertex().degree() == 2) {
+      Halfedge heA1 = heA0.next();
+      Halfedge heA2 = heA1.next();
+      Halfedge heB0prev = heA0.twin().prevOrbitVertex();
+      Halfedge heB1next = heA2.twin().next();
+      Face fA = heA0.face();
+      Face fB = heA0.twin().face(); // boundary loop
+      Vertex vA = heA0.vertex();
+      Vertex vB = heA1.vertex();
+
+      heNextArr[heB0prev.getIndex()] = heA1.getIndex();
+      heNextArr[heA1.getIndex()] = heB1next.getIndex();
+      heFaceArr[heA1.getIndex()] = fB.getIndex();
+      nInteriorHalfedgesCount--;
+      fHalfedgeArr[fB.getIndex()] = heA1.getIndex();
+      vHalfedgeArr[heA2.vertex().getIndex()] = heA1.twin().getIndex();
+
+      deleteEdgeBundle(e);
+      deleteEdgeBundle(heA2.edge());
+      deleteElement(vA);
+      deleteElement(fA);
+      ensureEdgeHasInteriorHalfedge(heA1.edge());
+
+      return vB;
+    }
     for (Halfedge he1 : heA0.tipVertex().outgoingHalfedges()) {
       for (Halfedge he2 : he1.tipVertex().outgoingHalfedges()) {
         if (!(heA0.next() == he1 && he1.next() == he2) &&
-- 
2.43.0


From c1e94f196663580bf4a9d19f212e916b4b148bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 010/124] fix: MeshData arithmetic also operated on unused
 storage

Slots that belong to no element (exterior corners, spare capacity) were
operated on as well: integer division by the default value trapped, and the
results were later handed out as the initial values of new elements instead
of the container's default.
---
 include/geometrycentral/utilities/mesh_data.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.h b/include/geometrycentral/utilities/mesh_data.h
index 70a7555..b2aa53f 100644
--- a/include/geometrycentral/utilities/mesh_data.h
+++ b/include/geometrycentral/utilities/mesh_data.h
@@ -134,7 +134,7 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(OP std::declval<T>())> operator OP(const MeshData<E, T>& lhs) {                                 \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(OP std::declval<T>())> result(*lhs.getMesh());                                                \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = OP lhs.raw()[i];                             \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = OP lhs[e];                                               \
     return result;                                                                                                     \
   }
 
@@ -145,21 +145,21 @@ void checkMeshValid(const MeshData<E, T>& val);
                                                                             const MeshData<E, U>& rhs) {               \
     checkMeshCompatible(lhs, rhs);                                                                                     \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs.raw()[i];                \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs[e];                                        \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const MeshData<E, T>& lhs, const U& rhs) { \
     checkMeshValid(lhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*lhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) result.raw()[i] = lhs.raw()[i] OP rhs;                         \
+    for (E e : iterateElements<E>(lhs.getMesh())) result[e] = lhs[e] OP rhs;                                           \
     return result;                                                                                                     \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> operator OP(const T& lhs, const MeshData<E, U>& rhs) { \
     checkMeshValid(rhs);                                                                                               \
     MeshData<E, decltype(std::declval<T>() OP std::declval<U>())> result(*rhs.getMesh());                              \
-    for (Eigen::Index i = 0; i < rhs.raw().rows(); i++) result.raw()[i] = lhs OP rhs.raw()[i];                         \
+    for (E e : iterateElements<E>(rhs.getMesh())) result[e] = lhs OP rhs[e];                                           \
     return result;                                                                                                     \
   }
 
@@ -170,13 +170,13 @@ void checkMeshValid(const MeshData<E, T>& val);
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs,                   \
                                                                                 const MeshData<E, U>& rhs) {           \
     checkMeshCompatible(lhs, rhs);                                                                                     \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs.raw()[i];                              \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs[e];                                                \
     return lhs;                                                                                                        \
   }                                                                                                                    \
   template <typename E, typename T, typename U>                                                                        \
   MeshData<E, decltype(std::declval<T>() OP std::declval<U>())>& operator OP##=(MeshData<E, T>& lhs, const U& rhs) {   \
     checkMeshValid(lhs);                                                                                               \
-    for (Eigen::Index i = 0; i < lhs.raw().rows(); i++) lhs.raw()[i] OP## = rhs;                                       \
+    for (E e : iterateElements<E>(lhs.getMesh())) lhs[e] OP## = rhs;                                                   \
     return lhs;                                                                                                        \
   }
 
-- 
2.43.0


From 1a55667ae5d113724f93050a80fa52c1ce455b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 011/124] fix: moved-from MeshData stayed registered with its
 mesh

compress() then permuted the empty buffer of the moved-from container, reading
out of bounds. A moved-from container is now cleared.
---
 include/geometrycentral/utilities/mesh_data.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..2a86f9a 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,7 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+  other.clear(); // the moved-from container no longer holds data, so it must not stay registered with the mesh
 }
 
 
@@ -64,11 +65,14 @@ MeshData<E, T>& MeshData<E, T>::operator=(const MeshData<E, T>& other) {
 
 template <typename E, typename T>
 MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
+  if (this == &other) return *this;
+
   deregisterWithMesh();
   mesh = other.mesh;
   defaultValue = other.defaultValue;
   data = std::move(other.data);
   registerWithMesh();
+  other.clear(); // the moved-from container no longer holds data, so it must not stay registered with the mesh
 
   return *this;
 }
-- 
2.43.0


From f1d86c5f4d2c2d7c998c759b99dae0c5e55d4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 012/124] fix: MeshData::setDefault() skipped the first slot
 when there are no elements

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 2a86f9a..0fcf74d 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -275,11 +275,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t firstUnused = 0;
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    firstUnused = std::max(firstUnused, e.getIndex() + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = firstUnused; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From 552239497bbf12863095bbc874aafe4cbfef8536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 013/124] fix: compress() reversed the order of
 BoundaryLoopData entries

---
 src/surface/surface_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 6521d9e..6f4948d 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1890,6 +1890,7 @@ void SurfaceMesh::compressFaces() {
 
   // Invoke callbacks
   newIndMap.resize(nFacesCount); // truncate all boundary loop entries, so this array now just holds values for faces
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end()); // boundary loop indices count down from the end of the array
   for (auto& f : facePermuteCallbackList) {
     f(newIndMap);
   }
-- 
2.43.0


From 568f23fbcf8aadd0c15bd15c80adaff180c5c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 014/124] fix: duplicateFace() did not count the new interior
 halfedges and corners

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 6f4948d..bb4e795 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From 711c1b52fe204b8bf8603898a46e4f10216658ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 015/124] fix: an unmatched unrequire() left the require count
 of the quantity at -1

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..11b3713 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From 277bef39a129b1dc7129d445ef72c6e77c3b2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 016/124] fix: the point cloud connection Laplacian did not
 ensure its tangent bases (crash after purgeQuantities)

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..aadd96f 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 3222742a13dfd5b4cea32c57a8285447c5d67f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 017/124] fix: polygonGradientMatrix was the negated gradient
 (and polygonDivergenceMatrix with it)

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..e94c56a 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -882,7 +882,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::polygonPerFaceGradientMatrix(const Fa
   double A = faceAreas[f];
   Vector3 n = faceNormals[f];
   Eigen::Vector3d N = {n[0], n[1], n[2]};
-  return 1. / A * bracket(N) * polygonCoGradientMatrix(f);
+  return -1. / A * bracket(N) * polygonCoGradientMatrix(f);
 }
 
 Eigen::MatrixXd EmbeddedGeometryInterface::polygonCoGradientMatrix(const Face& f) {
-- 
2.43.0


From 8e16935badfeb17814824de86a398cc557363515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 018/124] fix: faceTangentBasis (and the polygon connection
 Laplacian) threw on polygonal faces

---
 src/surface/embedded_geometry_interface.cpp | 28 ++++-----------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index e94c56a..0444f79 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -149,31 +149,13 @@ void EmbeddedGeometryInterface::computeFaceTangentBasis() {
     return;
   }
 
-  halfedgeVectorsInFaceQ.ensureHave();
-
+  // The x-axis points along the first halfedge (as for halfedgeVectorsInFace), projected to the tangent plane for general
+  // polygons
   for (Face f : mesh.faces()) {
-    // TODO this implementation seems a bit silly...
-
-    // For general polygons, take the average of each edge vector projected to tangent plane
-    Vector3 basisXSum = Vector3::zero();
     Vector3 N = faceNormals[f];
-    bool isTriangular = f.isTriangle();
-    for (Halfedge heF : f.adjacentHalfedges()) {
-
-      Vector3 eVec = vertexPositions[heF.next().vertex()] - vertexPositions[heF.vertex()];
-      eVec = eVec.removeComponent(N);
-
-      double angle = halfedgeVectorsInFace[heF].arg();
-      Vector3 eVecX = eVec.rotateAround(N, -angle);
-
-      basisXSum += eVecX;
-
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (isTriangular) break;
-    }
-
-    Vector3 basisX = unit(basisXSum);
+    Halfedge he = f.halfedge();
+    Vector3 eVec = vertexPositions[he.next().vertex()] - vertexPositions[he.vertex()];
+    Vector3 basisX = unit(eVec.removeComponent(N));
     Vector3 basisY = cross(N, basisX);
     faceTangentBasis[f] = {{basisX, basisY}};
   }
-- 
2.43.0


From 7fafe713dc861f9e0352ce194f67fd66d7c0f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 019/124] fix: halfedgeVectorsInVertex (and vertexTangentBasis)
 were wrong around polygonal faces

---
 src/surface/intrinsic_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index a4bc788..c5026b5 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -385,7 +385,7 @@ void IntrinsicGeometryInterface::computeHalfedgeVectorsInVertex() {
       halfedgeVectorsInVertex[currHe] = Vector2::fromAngle(coordSum) * edgeLengths[currHe.edge()];
       coordSum += cornerScaledAngles[currHe.corner()];
       if (!currHe.isInterior()) break;
-      currHe = currHe.next().next().twin();
+      currHe = currHe.prevOrbitFace().twin();
     } while (currHe != firstHe);
   }
 }
-- 
2.43.0


From ab417d7481d687c26b013a11a705b5080fdc05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 020/124] fix: d1 had wrong signs (d1*d0 != 0) where adjacent
 faces are not consistently oriented

---
 src/surface/intrinsic_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index c5026b5..7f93980 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -762,7 +762,7 @@ void IntrinsicGeometryInterface::computeDECOperators() {
 
       for (Halfedge he : f.adjacentHalfedges()) {
         size_t iEdge = edgeIndices[he.edge()];
-        double sign = (he == he.edge().halfedge()) ? (1.0) : (-1.0);
+        double sign = (he.orientation() == he.edge().halfedge().orientation()) ? (1.0) : (-1.0);
         tripletList.emplace_back(iFace, iEdge, sign);
       }
     }
-- 
2.43.0


From 964c2289acc3d264055932c9b4ee448cb643c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 021/124] fix: polygonVertexConnectionLaplacian was not
 positive semi-definite (tangent planes and normals did not match)

---
 src/surface/embedded_geometry_interface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 0444f79..ceeeb1c 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -960,13 +960,14 @@ Eigen::Matrix2d EmbeddedGeometryInterface::Rvf(const Vertex& v, const Face& f) {
 }
 
 Eigen::Matrix3d EmbeddedGeometryInterface::Qvf(const Vertex& v, const Face& f) {
-  polygonVertexNormalsQ.ensureHave();
+  vertexNormalsQ.ensureHave();
   faceNormalsQ.ensureHave();
 
-  // Return 3 x 3 rotation matrix to align n_v to n_f.
+  // Return 3 x 3 rotation matrix to align n_v to n_f, where n_v must be the normal of the tangent space Tv(v).
   Vector3 n = faceNormals[f];
   Eigen::Vector3d nf = {n[0], n[1], n[2]};
-  Eigen::Vector3d nv = polygonVertexNormals[v];
+  Vector3 nVert = vertexNormals[v];
+  Eigen::Vector3d nv = {nVert[0], nVert[1], nVert[2]};
   double c = nv.dot(nf);
 
   // Special case for opposite nv and nf vectors.
-- 
2.43.0


From 4bbfe52dfdb768fba2fd5ef50cd73d3efb93fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:45 +0000
Subject: [PATCH 022/124] fix: vertexDualMeanCurvatureNormal() counted edges
 with three or more faces repeatedly

---
 .../geometrycentral/surface/vertex_position_geometry.ipp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 6e8d94a..9ba9621 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -203,9 +203,9 @@ inline double VertexPositionGeometry::vertexPrincipalCurvature(int whichCurvatur
 inline Vector3 VertexPositionGeometry::vertexDualMeanCurvatureNormal(Vertex v) const {
   // WARNING: Logic duplicated between cached and immediate version
   Vector3 hN = Vector3::zero();
-  for (Halfedge he : v.outgoingHalfedges()) {
-    double w = edgeCotanWeight(he.edge());
-    hN += w * (vertexPositions[v] - vertexPositions[he.tipVertex()]) / 2.;
+  for (Edge e : v.adjacentEdges()) {
+    double w = edgeCotanWeight(e);
+    hN += w * (vertexPositions[v] - vertexPositions[e.otherVertex(v)]) / 2.;
   }
   return hN;
 }
-- 
2.43.0


From 62c8de71f2fa9e2e7e9dda55bd0f688ed674a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 023/124] fix: faceNormal of a polygon with five or more sides
 was not along its vector area

---
 .../surface/vertex_position_geometry.ipp      | 20 +++++--------------
 src/surface/embedded_geometry_interface.cpp   | 20 +++++--------------
 2 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 9ba9621..7a46c3b 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -103,23 +103,13 @@ inline double VertexPositionGeometry::edgeCotanWeight(Edge e) const {
 
 // Face normal
 inline Vector3 VertexPositionGeometry::faceNormal(Face f) const {
-  // For general polygons, take the sum of the cross products at each corner
+  // For general polygons, take the direction of the vector area (shoelace formula, relative to the first corner)
   Vector3 normalSum = Vector3::zero();
-  for (Halfedge heF : f.adjacentHalfedges()) {
-
-    // Gather vertex positions for next three vertices
-    Halfedge he = heF;
+  Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
+  for (Halfedge he : f.adjacentHalfedges()) {
     Vector3 pA = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pB = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pC = vertexPositions[he.vertex()];
-
-    normalSum += cross(pB - pA, pC - pA);
-
-    // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-    // same
-    if (he.next() == heF) break;
+    Vector3 pB = vertexPositions[he.next().vertex()];
+    normalSum += cross(pA - pRoot, pB - pRoot);
   }
 
   Vector3 normal = unit(normalSum);
diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index ceeeb1c..c62b382 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -84,23 +84,13 @@ void EmbeddedGeometryInterface::computeFaceNormals() {
 
   for (Face f : mesh.faces()) {
 
-    // For general polygons, take the sum of the cross products at each corner
+    // For general polygons, take the direction of the vector area (shoelace formula, relative to the first corner)
     Vector3 normalSum = Vector3::zero();
-    for (Halfedge heF : f.adjacentHalfedges()) {
-
-      // Gather vertex positions for next three vertices
-      Halfedge he = heF;
+    Vector3 pRoot = vertexPositions[f.halfedge().vertex()];
+    for (Halfedge he : f.adjacentHalfedges()) {
       Vector3 pA = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pB = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pC = vertexPositions[he.vertex()];
-
-      normalSum += cross(pB - pA, pC - pA);
-
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (he.next() == heF) break;
+      Vector3 pB = vertexPositions[he.next().vertex()];
+      normalSum += cross(pA - pRoot, pB - pRoot);
     }
 
     Vector3 normal = unit(normalSum);
-- 
2.43.0


From c364acc6fa01d31b6c9b741566d65cbe74391984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 024/124] fix: traceInputHalfedgeAlongIntrinsic returned
 vertices of the input mesh instead of the intrinsic mesh

---
 src/surface/signpost_intrinsic_triangulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9ab4aee..09f5408 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -106,8 +106,8 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
   // Here we need to check if the corresponding intrinsic edge is original
   Halfedge origHe = intrinsicMesh->halfedge(inputHe.getIndex()); // as usual, safe by dense construction
   if (edgeIsOriginal[origHe.edge()]) {
-    Vertex vA = inputHe.tailVertex();
-    Vertex vB = inputHe.tipVertex();
+    Vertex vA = origHe.tailVertex();
+    Vertex vB = origHe.tipVertex();
     std::vector<SurfacePoint> result{SurfacePoint(vA), SurfacePoint(vB)};
     return result;
   }
-- 
2.43.0


From 33ab36c31e33c7410ab6fda0a54b1c8f62e988e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 025/124] fix: traceGeodesic left a vertex in the wrong
 direction when a rescaled wedge spans more than pi

---
 src/surface/trace_geodesic.cpp | 59 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..33ac08b 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -526,14 +526,14 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Find the halfedge opening the wedge where tracing will start
   Halfedge wedgeHe;
-  Vector2 traceDirRelativeToStart;
+  double traceAngleRelativeToStart = 0.; // (rescaled) angle from wedgeHe, in [0, 2 PI]
 
   // Normally, one of the interval tests below will return positive and we'll simply launch the trace in to that
   // interval. However, due to numerical misfortune, it is possible that none of the intervals will test positive. In
   // that case, we'll simply launch along whichever halfedge was closest.
-  double minCross = std::numeric_limits<double>::infinity();
-  Halfedge minCrossHalfedge;
-  Vector2 minCrossHalfedgeDir; // the trace vector in this closest halfedge
+  double minAngle = std::numeric_limits<double>::infinity();
+  Halfedge minAngleHalfedge;
+  Vector2 minAngleHalfedgeDir; // the trace vector in this closest halfedge
 
   Halfedge currHe = currVert.halfedge();
   do {
@@ -556,32 +556,41 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
            << geom.halfedgeVectorsInVertex[nextHe] << endl;
       cout << "    corner angle " << geom.cornerAngles[currHe.corner()] << endl;
       cout << "    corner " << currHe.corner() << endl;
-      Vector2 relAngle = intervalEnd / intervalStart;
-      cout << "    wedge width " << relAngle << " radians: " << relAngle.arg() << endl;
+      Vector2 relVec = intervalEnd / intervalStart;
+      cout << "    wedge width " << relVec << " radians: " << relVec.arg() << endl;
     }
 
 
     // Check if our trace vector lies within the interval
-    double crossStart = cross(intervalStart, currVecDir);
-    double crossEnd = cross(intervalEnd, currVecDir);
-    if (crossStart > 0. && crossEnd <= 0.) {
+    // (measure angles rather than testing signs of cross products, because after rescaling a wedge may span more than PI)
+    double relAngle = (currVecDir / intervalStart).arg();
+    if (relAngle < 0.) relAngle += 2. * M_PI;
+    double wedgeAngle = (intervalEnd / intervalStart).arg();
+    if (nextHe == currHe) {
+      wedgeAngle = 2. * M_PI; // just one wedge, all the way around
+    } else if (wedgeAngle < -TRACE_EPS_TIGHT) {
+      wedgeAngle += 2. * M_PI;
+    }
+    if (relAngle > 0. && relAngle <= wedgeAngle) {
       wedgeHe = currHe;
-      traceDirRelativeToStart = currVecDir / intervalStart;
-      if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceDirRelativeToStart << endl;
-      if (TRACE_PRINT) cout << "    cross start = " << crossStart << " cross end = " << crossEnd << endl;
+      traceAngleRelativeToStart = relAngle;
+      if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceAngleRelativeToStart << endl;
       break;
     }
 
     // Keep track of the closest halfedge, as described above
-    if (std::fabs(crossStart) < minCross) {
-      minCross = std::fabs(crossStart);
-      minCrossHalfedge = currHe;
-      minCrossHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
+    double angleToStart = std::fmin(relAngle, 2. * M_PI - relAngle);
+    if (angleToStart < minAngle) {
+      minAngle = angleToStart;
+      minAngleHalfedge = currHe;
+      minAngleHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
     }
-    if (std::fabs(crossEnd) < minCross) {
-      minCross = std::fabs(crossEnd);
-      minCrossHalfedge = nextHe;
-      minCrossHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
+    double angleToEnd = std::fabs(relAngle - wedgeAngle);
+    angleToEnd = std::fmin(angleToEnd, 2. * M_PI - angleToEnd);
+    if (angleToEnd < minAngle) {
+      minAngle = angleToEnd;
+      minAngleHalfedge = nextHe;
+      minAngleHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
     }
 
     currHe = nextHe;
@@ -590,10 +599,10 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
   // None of the interval tests passed (probably due to unfortunate numerics), so just trace along the closest
   // halfedge
   if (wedgeHe == Halfedge()) {
-    if (TRACE_PRINT) cout << "  no wedge worked. following closest edge with dir " << minCrossHalfedgeDir << endl;
+    if (TRACE_PRINT) cout << "  no wedge worked. following closest edge with dir " << minAngleHalfedgeDir << endl;
     // Convert to edge coordinates
-    currVecDir = convertVecToEdge(minCrossHalfedge, minCrossHalfedgeDir);
-    return traceGeodesic_fromEdge(geom, minCrossHalfedge.edge(), convertTToEdge(minCrossHalfedge, 0.), currVecDir,
+    currVecDir = convertVecToEdge(minAngleHalfedge, minAngleHalfedgeDir);
+    return traceGeodesic_fromEdge(geom, minAngleHalfedge.edge(), convertTToEdge(minAngleHalfedge, 0.), currVecDir,
                                   currVecLen, traceOptions);
   }
 
@@ -603,8 +612,8 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Need to convert from "powered" representation to flat vector in face
   double sum = currVert.isBoundary() ? M_PI : 2. * M_PI;
-  traceDirRelativeToStart = traceDirRelativeToStart.pow(geom.vertexAngleSums[currVert] / sum);
-  traceDirRelativeToStart = traceDirRelativeToStart.normalize();
+  Vector2 traceDirRelativeToStart =
+      Vector2::fromAngle(traceAngleRelativeToStart * geom.vertexAngleSums[currVert] / sum);
 
   // Compute the starting vector
   Vector2 startDirInFace = geom.halfedgeVectorsInFace[wedgeHe].normalize();
-- 
2.43.0


From b322acc53d85dade3fa69e0cccf18870d32b17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 026/124] fix: trimTraceResult dropped genuine crossings of
 edges incident on the target in a Delta-complex

---
 src/surface/trace_geodesic.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 33ac08b..1cd1d0c 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -819,13 +819,27 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
 
 bool trimTraceResult(TraceGeodesicResult& traceResult, Vertex targetVertex) {
 
+  // For a point on an edge incident on the target: is that edge also opposite the target, and crossed far from it?
+  auto isCrossingOppositeTarget = [&](const SurfacePoint& p) {
+    Halfedge he = p.edge.halfedge();
+    bool opposite = he.next().tipVertex() == targetVertex ||
+                    (he.twin().isInterior() && he.twin().next().tipVertex() == targetVertex);
+    double tDist = std::numeric_limits<double>::infinity();
+    if (he.tailVertex() == targetVertex) tDist = std::fmin(tDist, p.tEdge);
+    if (he.tipVertex() == targetVertex) tDist = std::fmin(tDist, 1. - p.tEdge);
+    return opposite && tDist > 1e-2;
+  };
+
   while (traceResult.pathPoints.size() > 1) {
     SurfacePoint& b = traceResult.pathPoints.back();
 
     // Remove any edge crossings connected to the target vertex: they're numerical noise because we're already in the
     // 1-ring
+    // (in a Delta-complex such an edge may also be opposite the target vertex, in which case it is noise only if it was
+    // crossed right next to the target)
     if (b.type == SurfacePointType::Edge &&
-        (b.edge.halfedge().vertex() == targetVertex || b.edge.halfedge().twin().vertex() == targetVertex)) {
+        (b.edge.halfedge().vertex() == targetVertex || b.edge.halfedge().twin().vertex() == targetVertex) &&
+        !isCrossingOppositeTarget(b)) {
       traceResult.pathPoints.pop_back();
       traceResult.endingDir = Vector2::undefined();
       continue;
-- 
2.43.0


From 0508f7135d5dfe0163b6decdcc10895eff992088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 027/124] fix: trimTraceResult looked past the boundary for the
 target vertex

---
 src/surface/trace_geodesic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 1cd1d0c..45f6d2a 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -882,7 +882,7 @@ bool trimTraceResult(TraceGeodesicResult& traceResult, Vertex targetVertex) {
     if (bHe.vertex() == targetVertex) return true;
     if (bHe.twin().vertex() == targetVertex) return true;
     if (bHe.next().next().vertex() == targetVertex) return true;
-    if (bHe.twin().next().next().vertex() == targetVertex) return true;
+    if (bHe.twin().isInterior() && bHe.twin().next().next().vertex() == targetVertex) return true;
     return false;
     break;
   }
-- 
2.43.0


From 700db9bb7de9fd7d7e31f55b224f2356ad68ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 028/124] fix: SignpostIntrinsicTriangulation traced boundary
 edges of the input off the surface

---
 src/surface/signpost_intrinsic_triangulation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 09f5408..992403f 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -119,6 +119,18 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
   // Get the corresponding tail vertex on the intrinsic triangulation
   Vertex vTailIntrinsic = intrinsicMesh->vertex(vTail.getIndex()); // as usual, safe by dense construction
 
+  // Boundary edges are never flipped, only split: walk along the boundary rather than tracing right along the border
+  if (inputHe.edge().isBoundary()) {
+    Vertex vEnd = intrinsicMesh->vertex(vTip.getIndex());
+    std::vector<SurfacePoint> result{SurfacePoint(vTailIntrinsic)};
+    for (Vertex v = vTailIntrinsic; v != vEnd;) {
+      // (the halfedge of a boundary vertex starts the interior arc, its twin precedes the other boundary edge)
+      v = inputHe.isInterior() ? v.halfedge().tipVertex() : v.halfedge().twin().next().tipVertex();
+      result.push_back(SurfacePoint(v));
+    }
+    return result;
+  }
+
   // Gather values to trace
   SurfacePoint startP = SurfacePoint(vTailIntrinsic);
   Vector2 traceVec = inputGeom.halfedgeVectorsInVertex[inputHe];
-- 
2.43.0


From a6a4933eaa63789e7f482d43180ed345b7ff7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 029/124] fix: SurfacePoint::inEdge() placed a vertex at the
 opposite end of the edge

---
 include/geometrycentral/surface/surface_point.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..63a55c9 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
-    } else if (vertex == targetEdge.halfedge().tipVertex()) {
       return SurfacePoint(targetEdge, 0);
+    } else if (vertex == targetEdge.halfedge().tipVertex()) {
+      return SurfacePoint(targetEdge, 1);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From 68520d375e8a4527a05e49a22fd6fb45447d80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 030/124] fix: IntegerCoordinatesIntrinsicTriangulation kept a
 stale common subdivision after a face insertion

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 6902916..288b7ae 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1230,6 +1230,7 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitFace(Face f, Vector3 bary,
   vertexAngleSums[newVertex] = 2 * M_PI;
   updateHalfedgeVectorsInVertex(newVertex);
 
+  triangulationChanged();
   invokeFaceInsertionCallbacks(f, newVertex);
 
   return newVertex;
-- 
2.43.0


From f6078c39de3725df6b62d631b082377ebc81696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 031/124] fix:
 IntegerCoordinatesIntrinsicTriangulation::splitEdge() mishandled halfedges
 opposite to the edge's own

---
 .../integer_coordinates_intrinsic_triangulation.cpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 288b7ae..b324561 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1472,9 +1472,10 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   }
 
   // fix orientation
-  if (he != e.halfedge()) {
+  bool forward = he == e.halfedge();
+  if (!forward) {
     bary = 1 - bary;
-    iSeg = normalCoordinates[e] - iSeg;
+    iSeg = positivePart(normalCoordinates[e]) - iSeg;
   }
 
   if (verbose) std::cout << "  inputPoint: " << inputPoint << "\tiSeg: " << iSeg << std::endl;
@@ -1562,7 +1563,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   triangulationChanged();
 
   Halfedge otherNewHalfedge = newHalfedge.next().next().twin().next().next().twin();
-  if (e == he.edge()) {
+  if (forward) {
     invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
     return newHalfedge;
   } else {
-- 
2.43.0


From b3c1a0391115fff89d921c74da3cd88f2e47b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 032/124] fix: angle sum of a vertex inserted on the boundary
 of an IntegerCoordinatesIntrinsicTriangulation was 2 pi

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index b324561..5854e5e 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1402,7 +1402,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       updateHalfedgeVectorsInVertex(v);
     }
 
-    vertexAngleSums[newVertex] = 2 * M_PI;
+    vertexAngleSums[newVertex] = M_PI;
     updateHalfedgeVectorsInVertex(newVertex);
 
     triangulationChanged();
-- 
2.43.0


From 578d1169a1b941e4ce06d1d0bb97ada57fd9ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 033/124] fix: common subdivision recorded the wrong end of a
 shared edge whose intrinsic edge points the other way

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 5854e5e..61120f7 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -267,7 +267,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
         cs.pointsAlongA[eA].push_back(crPt);
-        cs.pointsAlongA[eA].push_back(bVtx[dst(eB)]);
+        cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]);
 
         cs.pointsAlongB[eB][1] = crPt;
       } else {
-- 
2.43.0


From fb0c9005c351c18a0515cc771816d14de5fb3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 034/124] fix: normal coordinate traces crossing the same
 halfedge twice were taken for closed curves

---
 src/surface/normal_coordinates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index adc4ffa..875ef13 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -391,7 +391,7 @@ std::tuple<NormalCoordinatesCurve, int> NormalCoordinates::topologicalTraceBidir
   // Case where the curve is a cycle
   // TODO this may be wrong
   if (forwardTrace.crossings.size() > 1 &&
-      forwardTrace.crossings.front().second == forwardTrace.crossings.back().second) {
+      forwardTrace.crossings.front() == forwardTrace.crossings.back()) {
     throw std::runtime_error("encountered a loop while tracing normal coordinates");
   }
 
-- 
2.43.0


From 13892b7c8a647fd90b11d71bd50960f6eddc3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 035/124] fix: normal coordinate traces ending at a vertex
 could be taken for closed curves

---
 src/surface/normal_coordinates.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surface/normal_coordinates.cpp b/src/surface/normal_coordinates.cpp
index 875ef13..b5cabfc 100644
--- a/src/surface/normal_coordinates.cpp
+++ b/src/surface/normal_coordinates.cpp
@@ -336,6 +336,7 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
   NormalCoordinatesCurve path;
 
+  bool terminated;
   do {
     int n = edgeCoords[he.edge()];
 
@@ -347,11 +348,12 @@ NormalCoordinatesCurve NormalCoordinates::topologicalTrace(Halfedge he, int inde
 
     path.crossings.push_back(std::make_pair(index, he));
 
-  } while (!stepTopologicalCurve(he, index) && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
+    terminated = stepTopologicalCurve(he, index);
+  } while (!terminated && !(he == startHe && index == startIndex) && !he.edge().isBoundary());
 
   // If we made a complete loop, record the starting point (also the ending
   // point) again
-  if ((he == startHe && index == startIndex) || he.edge().isBoundary())
+  if (!terminated && ((he == startHe && index == startIndex) || he.edge().isBoundary()))
     path.crossings.push_back(std::make_pair(index, he));
 
   return path;
-- 
2.43.0


From 31276e7e6d4f5e3572c496920c577de253a2ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 036/124] fix: traceNextCurve() gave up unless the first corner
 it looked at continued the curve

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 61120f7..c91b1d2 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1904,12 +1904,9 @@ IntegerCoordinatesIntrinsicTriangulation::traceNextCurve(const NormalCoordinates
           GC_SAFETY_ASSERT(c == incomingCorner, "there can only be one");
 
           return {true, normalCoordinates.topologicalTrace(c.halfedge().next(), finalPos)};
-
-        } else {
-          throw std::runtime_error("this shouldn't be possible");
-          return {false, NormalCoordinatesCurve{}};
         }
       }
+      throw std::runtime_error("this shouldn't be possible");
     } else {
       return {false, NormalCoordinatesCurve{}};
     }
-- 
2.43.0


From 416a1c7dbf2faa38daee589bf5c63637f2b8e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 037/124] fix: integer coordinates misread input edges that
 pass through vertices inserted along them

---
 ...eger_coordinates_intrinsic_triangulation.h |  7 +++
 ...er_coordinates_intrinsic_triangulation.cpp | 48 ++++++++++++++++---
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index de85c49..4659e97 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -127,6 +127,13 @@ public:
   // (i.e. edgeCoords[he.edge()] must be negative)
   Halfedge identifyInputEdge(Halfedge he) const;
 
+  // The input halfedge along which we move from src, a point on an edge, to dst, another point on the same edge
+  Halfedge inputHalfedgeTowards(const SurfacePoint& src, const SurfacePoint& dst) const;
+
+  // Converts a time along a curve, which follows heInput but may start and end at vertices inserted along it, to a time
+  // along all of heInput
+  double curveTimeToInputTime(const NormalCoordinatesCurve& curve, Halfedge heInput, double t) const;
+
   std::array<Vector2, 3> vertexCoordinatesInFace(Face face) const;
 
   void setFixedEdges(const EdgeData<bool>& fixedEdges);
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index c91b1d2..b682d39 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -290,7 +290,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           // geodesicPath stores the start and end point, which
           // path doesn't do, so we offset by 1 here
           SurfacePoint ptB = std::get<0>(geodesicPath[iC + 1]);
-          double tA = std::get<1>(geodesicPath[iC + 1]);
+          double tA = curveTimeToInputTime(curve, eA.halfedge(), std::get<1>(geodesicPath[iC + 1]));
 
           int iB = std::get<0>(path[iC]);
           if (!positiveOrientation) iB = positivePart(normalCoordinates[eB]) - iB - 1;
@@ -766,8 +766,9 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
         return {heBary(he, 1), vertexLocations[he.next().vertex()]};
       } else {
         // intermediate crossing
-        double tInput = transverseCrossingTimes[heIndex(he)][pos - 1];
         Halfedge heInput = identifyInputEdge(curves[heIndex(he)][pos - 1]);
+        double tInput = curveTimeToInputTime(curves[heIndex(he)][pos - 1], heInput,
+                                             transverseCrossingTimes[heIndex(he)][pos - 1]);
         double tIntrinsic = boundaryCrossings[heIndex(he)][pos - 1];
         return {heBary(he, tIntrinsic), SurfacePoint(heInput, tInput)};
       }
@@ -1091,7 +1092,8 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       tSegmentTail = 0;
     } else {
       Halfedge tailHedge = identifyInputEdge(curves[crossingSegment - 1]);
-      segmentTail = SurfacePoint(tailHedge, transverseCrossingTimes[crossingSegment - 1]);
+      segmentTail = SurfacePoint(tailHedge, curveTimeToInputTime(curves[crossingSegment - 1], tailHedge,
+                                                                 transverseCrossingTimes[crossingSegment - 1]));
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
     }
 
@@ -1100,7 +1102,8 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       tSegmentTip = 1;
     } else {
       Halfedge tipHedge = identifyInputEdge(curves[crossingSegment]);
-      segmentTip = SurfacePoint(tipHedge, transverseCrossingTimes[crossingSegment]);
+      segmentTip = SurfacePoint(
+          tipHedge, curveTimeToInputTime(curves[crossingSegment], tipHedge, transverseCrossingTimes[crossingSegment]));
       tSegmentTip = heCrossingTimes[crossingSegment];
     }
 
@@ -1932,9 +1935,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
   if (path.crossings[0].first < 0) {
     // If edge is shared, use roundabouts to identify shared edge
 
-    Halfedge he = path.crossings[0].second;
-    Vertex inputSrc = vertexLocations[he.vertex()].vertex;
-    return vertexHalfedge(inputSrc, normalCoordinates.roundabouts[he]);
+    return identifyInputEdge(path.crossings[0].second);
   } else {
     Halfedge he = path.crossings[0].second;
     int p = path.crossings[0].first - normalCoordinates.strictCornerCoord(he.corner());
@@ -1946,6 +1947,11 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
     GC_SAFETY_ASSERT(p >= 0, "crossing must have nonnegative index");
 
     SurfacePoint src = vertexLocations[he.next().next().vertex()];
+    if (src.type == SurfacePointType::Edge) {
+      // the curve starts at a vertex inserted along the input edge
+      Halfedge heLast = path.crossings.back().second;
+      return inputHalfedgeTowards(src, vertexLocations[heLast.twin().next().tipVertex()]);
+    }
     GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start at vertex");
     Vertex inputSrc = src.vertex;
 
@@ -1971,10 +1977,38 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he
     return he;
   };
 
+  if (vertexLocations[he.vertex()].type == SurfacePointType::Edge) {
+    // the halfedge starts at a vertex inserted along the input edge
+    return inputHalfedgeTowards(vertexLocations[he.vertex()], vertexLocations[he.next().vertex()]);
+  }
+
   Vertex src = vertexLocations[he.vertex()].vertex;
   return vertexHalfedge(src, normalCoordinates.roundabouts[he]);
 }
 
+// The input halfedge along which we move from src, a point on an edge, to dst, another point on the same edge
+Halfedge IntegerCoordinatesIntrinsicTriangulation::inputHalfedgeTowards(const SurfacePoint& src,
+                                                                        const SurfacePoint& dst) const {
+  Halfedge he = src.edge.halfedge();
+  return src.tEdge < dst.inEdge(src.edge).tEdge ? he : he.twin();
+}
+
+// Converts a time along a curve, which follows heInput but may start and end at vertices inserted along it, to a time
+// along all of heInput
+double IntegerCoordinatesIntrinsicTriangulation::curveTimeToInputTime(const NormalCoordinatesCurve& curve,
+                                                                      Halfedge heInput, double t) const {
+  Halfedge heFirst = curve.crossings.front().second;
+  Halfedge heLast = curve.crossings.back().second;
+  auto inputTime = [&](Vertex v, double tAtVertex) {
+    const SurfacePoint& p = vertexLocations[v];
+    if (p.type != SurfacePointType::Edge) return tAtVertex;
+    return heInput == heInput.edge().halfedge() ? p.tEdge : 1. - p.tEdge;
+  };
+  double tStart = inputTime(heFirst.next().next().vertex(), 0.);
+  double tEnd = inputTime(heLast.twin().next().tipVertex(), 1.);
+  return (1. - t) * tStart + t * tEnd;
+}
+
 std::array<Vector2, 3> IntegerCoordinatesIntrinsicTriangulation::vertexCoordinatesInFace(Face face) const {
   // stolen from
   // gc/intrinsic_geometry_interface.cpp:computeHalfedgeVectorsInFace
-- 
2.43.0


From dbfbd3d8893756e643c2545e4a3f77c4c3a4ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 038/124] fix: integer computeEdgeSplitData chose the wrong one
 of two input faces sharing all their edges

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index b682d39..800514a 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1087,6 +1087,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
 
     SurfacePoint segmentTail, segmentTip;
     double tSegmentTail, tSegmentTip;
+    Face inputFace; // the input face containing the segment, i.e. the one between its two crossings
     if (crossingSegment == 0) {
       segmentTail = vertexLocations[he.tailVertex()];
       tSegmentTail = 0;
@@ -1095,6 +1096,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTail = SurfacePoint(tailHedge, curveTimeToInputTime(curves[crossingSegment - 1], tailHedge,
                                                                  transverseCrossingTimes[crossingSegment - 1]));
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
+      inputFace = tailHedge.face();
     }
 
     if (crossingSegment == normalCoordinates[he.edge()]) {
@@ -1105,10 +1107,10 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       segmentTip = SurfacePoint(
           tipHedge, curveTimeToInputTime(curves[crossingSegment], tipHedge, transverseCrossingTimes[crossingSegment]));
       tSegmentTip = heCrossingTimes[crossingSegment];
+      inputFace = tipHedge.twin().face();
     }
 
     double tBarySegment = (tBary - tSegmentTail) / (tSegmentTip - tSegmentTail);
-    Face inputFace = sharedFace(segmentTail, segmentTip);
     Vector3 segmentTailCoords = segmentTail.inFace(inputFace).faceCoords;
     Vector3 segmentTipCoords = segmentTip.inFace(inputFace).faceCoords;
 
-- 
2.43.0


From a0d0c82b7346da02a61c58a866d9b3b974bb0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 039/124] fix: removeInsertedVertex() used an invalid face when
 the vertex could not be removed from a Delta-complex

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 src/surface/signpost_intrinsic_triangulation.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 800514a..a13ed01 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1677,6 +1677,7 @@ Face IntegerCoordinatesIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // ==== Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // the vertex could not be removed
 
   // ==== Update cached data
   // Edge lengths, normal coordinates, and roundabouts should be okay
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 992403f..46f04e6 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -584,6 +584,7 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // the vertex could not be removed
   updateFaceBasis(newF);
   triangulationChanged();
   return newF;
-- 
2.43.0


From 191bc77800d05abd71810868b897e4853f906bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 040/124] fix: integer coordinates located points in the wrong
 one of two input faces sharing their edges or vertices

---
 ...eger_coordinates_intrinsic_triangulation.h |  3 ++
 ...er_coordinates_intrinsic_triangulation.cpp | 46 ++++++++++++++++++-
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index 4659e97..e69b6b3 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -127,6 +127,9 @@ public:
   // (i.e. edgeCoords[he.edge()] must be negative)
   Halfedge identifyInputEdge(Halfedge he) const;
 
+  // The input face containing a halfedge which is not crossed by any input edge (to its left, if it is shared)
+  Face identifyInputFace(Halfedge he) const;
+
   // The input halfedge along which we move from src, a point on an edge, to dst, another point on the same edge
   Halfedge inputHalfedgeTowards(const SurfacePoint& src, const SurfacePoint& dst) const;
 
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index a13ed01..ce97059 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -672,7 +672,7 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
   } else if (normalCoordinates[f.halfedge().edge()] <= 0 && normalCoordinates[f.halfedge().next().edge()] <= 0 &&
              normalCoordinates[f.halfedge().next().next().edge()] <= 0) {
 
-    insertionFace = getParentFace(f);
+    insertionFace = identifyInputFace(f.halfedge());
 
     std::array<Vector3, 3> vertexBary;
     size_t iV = 0;
@@ -1143,7 +1143,7 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
     SurfacePoint tail = vertexLocations[he.tailVertex()];
     SurfacePoint tip = vertexLocations[he.tipVertex()];
 
-    Face inputFace = sharedFace(tail, tip);
+    Face inputFace = identifyInputFace(he);
     if (inputFace == Face()) {
       std::cout << he << " | normal coord: " << normalCoordinates[he.edge()] << std::endl;
       std::cout << "Time to figure out what's going on" << std::endl;
@@ -1989,6 +1989,48 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he
   return vertexHalfedge(src, normalCoordinates.roundabouts[he]);
 }
 
+// The input face containing he, which is not crossed by any input edge. If he is not shared, both of its sides lie in
+// that face; otherwise, the face is the one to the left of he. The endpoints alone do not determine the face if several
+// input faces share the edges or vertices which they lie on, so search the part of the intrinsic triangulation around he
+// which is contained in the same input face
+Face IntegerCoordinatesIntrinsicTriangulation::identifyInputFace(Halfedge he) const {
+  std::vector<Halfedge> toProcess{he};
+  std::unordered_set<Halfedge> seen;
+  if (normalCoordinates[he.edge()] == 0) toProcess.push_back(he.twin());
+
+  while (!toProcess.empty()) {
+    Halfedge heA = toProcess.back();
+    toProcess.pop_back();
+    if (!heA.isInterior() || !seen.insert(heA).second) continue;
+    Halfedge heB = heA.next();
+    Halfedge heC = heB.next();
+
+    if (normalCoordinates[heA.edge()] < 0) return identifyInputEdge(heA).face();
+
+    // Points inside of a face determine it
+    for (Halfedge h : {heA, heB}) {
+      if (vertexLocations[h.vertex()].type == SurfacePointType::Face) return vertexLocations[h.vertex()].face;
+    }
+
+    // If input edges cross the other sides, the one next to heA bounds the input face
+    int nB = normalCoordinates[heB.edge()];
+    int nC = normalCoordinates[heC.edge()];
+    if (nC > 0 && nC > nB) {
+      return identifyInputEdge(std::get<0>(normalCoordinates.topologicalTraceBidirectional(heC, nC - 1))).face();
+    } else if (nB > 0) {
+      return identifyInputEdge(std::get<0>(normalCoordinates.topologicalTraceBidirectional(heB, 0))).twin().face();
+    }
+
+    // Otherwise, all of this triangle is in the input face, as is the other side of any edge which is not shared
+    for (Halfedge h : {heB, heC}) {
+      toProcess.push_back(h);
+      if (normalCoordinates[h.edge()] == 0) toProcess.push_back(h.twin());
+    }
+  }
+
+  return Face();
+}
+
 // The input halfedge along which we move from src, a point on an edge, to dst, another point on the same edge
 Halfedge IntegerCoordinatesIntrinsicTriangulation::inputHalfedgeTowards(const SurfacePoint& src,
                                                                         const SurfacePoint& dst) const {
-- 
2.43.0


From 9adbdf1fbe8d9e9dfd55893a55fed3d5de1a109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 041/124] fix: CommonSubdivision::interpolateEdgeLengthsA/B
 used the wrong one of several faces shared by the endpoints

---
 src/surface/common_subdivision.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index 0cf727c..702647e 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -193,7 +193,7 @@ EdgeData<double> CommonSubdivision::interpolateEdgeLengthsA(const EdgeData<doubl
   for (Edge e : mesh->edges()) {
     SurfacePoint tail = sourcePoints[e.halfedge().tailVertex()]->posA;
     SurfacePoint tip = sourcePoints[e.halfedge().tipVertex()]->posA;
-    Face f = sharedFace(tail, tip);
+    Face f = sourceFaceA[e.halfedge().face()]; // not sharedFace(), the points may have several faces in common
     GC_SAFETY_ASSERT(f != Face(), "common subdivision edges must be contained in a face");
     tail = tail.inFace(f);
     tip = tip.inFace(f);
@@ -216,7 +216,7 @@ EdgeData<double> CommonSubdivision::interpolateEdgeLengthsB(const EdgeData<doubl
   for (Edge e : mesh->edges()) {
     SurfacePoint tail = sourcePoints[e.halfedge().tailVertex()]->posB;
     SurfacePoint tip = sourcePoints[e.halfedge().tipVertex()]->posB;
-    Face f = sharedFace(tail, tip);
+    Face f = sourceFaceB[e.halfedge().face()]; // not sharedFace(), the points may have several faces in common
     GC_SAFETY_ASSERT(f != Face(), "common subdivision edges must be contained in a face");
     tail = tail.inFace(f);
     tip = tip.inFace(f);
-- 
2.43.0


From 670cc9e50935e94bf92f5b5eef7f4c53115df300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 042/124] fix: endingDir of a trace stopped on an edge by
 barrierEdges or maxIters could be reversed

---
 src/surface/trace_geodesic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 45f6d2a..a5dabbb 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -307,6 +307,7 @@ inline TraceSubResult traceInFaceBarycentric(IntrinsicGeometryInterface& geom, F
     result.terminated = true;
     result.endPoint = SurfacePoint(crossHe.edge(), convertTToEdge(crossHe, tCross));
     result.incomingDirToPoint = remainingDirInHalfedge;
+    if (crossHe != crossHe.edge().halfedge()) result.incomingDirToPoint *= -1.; // tangent space of the edge
     result.traceVectorInHalfedgeLen = lenRemaining;
 
     return result;
@@ -645,6 +646,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
       // Use the last trace as ending data
       result.endPoint = SurfacePoint(prevTraceEnd.crossHe, prevTraceEnd.tCross);
       result.endingDir = prevTraceEnd.traceVectorInHalfedgeDir;
+      if (prevTraceEnd.crossHe != prevTraceEnd.crossHe.edge().halfedge()) result.endingDir *= -1.; // as above
       result.length -= prevTraceEnd.traceVectorInHalfedgeLen;
 
       if (traceOptions.includePath) {
-- 
2.43.0


From 01f6f72c9757e37ace1a0a543ebc62b9a0a5005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 043/124] fix: tracing a zero vector returned an invalid end
 point

---
 src/surface/trace_geodesic.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index a5dabbb..fa5b25b 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -720,6 +720,10 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     result.length = 0;
 
     // probably want to ensure we still return a point in a face...
+    result.endPoint = startP;
+    if (traceOptions.includePath) {
+      result.pathPoints.push_back(result.endPoint);
+    }
     if (traceOptions.errorOnProblem) {
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
@@ -790,6 +794,11 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    result.endPoint = SurfacePoint(startFace, startBary);
+    if (traceOptions.includePath) {
+      result.pathPoints.push_back(result.endPoint);
+    }
+
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From 98cb0eccbec9aec1b26db70604bfecf8d832b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 044/124] fix: place edge SurfacePoints correctly on
 inconsistently oriented, boundary and nonmanifold edges of general meshes

---
 include/geometrycentral/surface/surface_point.ipp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 63a55c9..157c7c1 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -9,7 +9,7 @@ inline SurfacePoint::SurfacePoint() : type(SurfacePointType::Vertex) {}
 inline SurfacePoint::SurfacePoint(Vertex v) : type(SurfacePointType::Vertex), vertex(v) {}
 inline SurfacePoint::SurfacePoint(Edge e, double tEdge_) : type(SurfacePointType::Edge), edge(e), tEdge(tEdge_) {}
 inline SurfacePoint::SurfacePoint(Halfedge he, double tHalfedge)
-    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he == he.edge().halfedge() ? tHalfedge : (1. - tHalfedge)) {}
+    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he.orientation() ? tHalfedge : (1. - tHalfedge)) {}
 inline SurfacePoint::SurfacePoint(Face f, Vector3 faceCoords_)
     : type(SurfacePointType::Face), face(f), faceCoords(faceCoords_) {}
 
@@ -110,9 +110,11 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
 
   case SurfacePointType::Edge: {
 
-    double thisT = tEdge;
     for (Halfedge targetHe : edge.adjacentHalfedges()) {
 
+      // The position along this halfedge, which might run against the edge
+      double thisT = targetHe.orientation() ? tEdge : 1. - tEdge;
+
       int i = 0;
       for (Halfedge he : targetFace.adjacentHalfedges()) {
         if (he == targetHe) {
@@ -126,9 +128,6 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
         }
         i++;
       }
-
-      // Flip the point to be along the other halfedge
-      thisT = 1. - thisT;
     }
 
     break;
@@ -178,7 +177,7 @@ inline Vertex SurfacePoint::nearestVertex() const {
   }
   case SurfacePointType::Edge: {
     if (tEdge < .5) return edge.halfedge().vertex();
-    return edge.halfedge().twin().vertex();
+    return edge.halfedge().tipVertex();
     break;
   }
   case SurfacePointType::Face: {
@@ -207,7 +206,7 @@ inline T SurfacePoint::interpolate(const VertexData<T>& data) const {
   }
   case SurfacePointType::Edge: {
     T valTail = data[edge.halfedge().vertex()];
-    T valTip = data[edge.halfedge().twin().vertex()];
+    T valTip = data[edge.halfedge().tipVertex()];
     return (1. - tEdge) * valTail + tEdge * valTip;
     break;
   }
-- 
2.43.0


From 18f424540c9558736d6ff61940233ce4d4832916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 045/124] fix: solve the degenerate window intersection A x^2 +
 2 B x + C = 0 with A = 0 correctly

---
 src/surface/exact_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index e34237e..c53f73d 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -315,7 +315,7 @@ unsigned GeodesicAlgorithmExact::intersect_intervals(interval_pointer zero, Inte
 
     if (std::abs(A) < local_small_epsilon) { // if A == 0, linear equation
       if (std::abs(B) > local_small_epsilon) {
-        inter[0] = -C / B; // one solution
+        inter[0] = -C / (2. * B); // one solution of A x^2 + 2 B x + C = 0
         Ninter = 1;
       }
     } else {
-- 
2.43.0


From 97c83f8c525c1b0e61563baa06f15fd8f424babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 046/124] fix: exact geodesics reach boundary edges and spread
 from nonmanifold vertices correctly on general meshes

---
 src/surface/exact_geodesics.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index c53f73d..f9e3e27 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -151,12 +151,11 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       double edgeLength = geom.edgeLengths[e];
-      double position = he.orientation() ? 0.0 : edgeLength;
+      double position = e.halfedge().tailVertex() == v ? 0.0 : edgeLength;
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval && interval->visible_from_source()) {
@@ -485,30 +484,31 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       double dy = min_interval->pseudo_y();
       double source_d = min_interval->d() + sqrt(dx * dx + dy * dy);
 
-      for (Halfedge heSpoke : v.outgoingHalfedges()) {
-        double L = geom.edgeLengths[heSpoke.edge()];
+      for (Edge spoke : v.adjacentEdges()) {
+        double L = geom.edgeLengths[spoke];
         candidate.start() = 0;
         candidate.stop() = L;
         candidate.d() = source_d;
-        candidate.pseudo_x() = heSpoke.orientation() ? 0 : L;
+        candidate.pseudo_x() = spoke.halfedge().tailVertex() == v ? 0 : L;
         candidate.pseudo_y() = 0;
 
         candidate.next() = nullptr;
-        candidate.edge() = heSpoke.edge();
-        candidate.halfedge() = heSpoke;
+        candidate.edge() = spoke;
+        candidate.halfedge() = Halfedge(); // spreads into every face of the spoke
         candidate.edge_length() = L;
         candidate.source_index() = min_interval->source_index();
         candidate.direction() = Interval::DirectionType::FROM_HALFEDGE;
         candidate.min() = candidate.d();
 
-        update_list_and_queue(interval_list(heSpoke.edge()), &candidate, 1);
+        update_list_and_queue(interval_list(spoke), &candidate, 1);
       }
     };
 
-    if (!vertexIsManifold[he.tailVertex()]) {
+    // only intervals which reach the vertex carry its distance
+    if (first_interval && !vertexIsManifold[he.tailVertex()]) {
       propagateNonmanifoldVertex(he.tailVertex(), true);
     }
-    if (!vertexIsManifold[he.tipVertex()]) {
+    if (last_interval && !vertexIsManifold[he.tipVertex()]) {
       propagateNonmanifoldVertex(he.tipVertex(), false);
     }
 
@@ -1180,12 +1180,11 @@ const_interval_pointer GeodesicAlgorithmExact::best_first_interval(const Surface
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       // double position = e->v0()->id() == v->id() ? 0.0 : e->length();
-      double position = he.orientation() ? 0.0 : geom.edgeLengths[e];
+      double position = e.halfedge().tailVertex() == v ? 0.0 : geom.edgeLengths[e];
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval) {
-- 
2.43.0


From 139fb0eec1d85837938ead3b816a9a1f71de6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 047/124] fix: exact geodesics do not lose windows whose rays
 run along an edge or through a flat vertex

---
 src/surface/exact_geodesics.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index f9e3e27..b5116a3 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -197,6 +197,10 @@ double GeodesicAlgorithmExact::compute_positive_intersection(double start, doubl
 
   double denominator = sin_alpha * (pseudo_x - start) - cos_alpha * pseudo_y;
   if (denominator < 0.0) {
+    // a ray through the corner which runs along the new edge, up to rounding
+    if (start == 0.0 && denominator > -1e-8 * sqrt(pseudo_x * pseudo_x + pseudo_y * pseudo_y)) {
+      return 0.0;
+    }
     return -1.0;
   }
 
@@ -547,7 +551,7 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       bool propagate_to_right = true;
 
       if (num_propagated) {
-        if (candidates[num_propagated - 1].stop() != next_edge_length) {
+        if (candidates[num_propagated - 1].stop() < next_edge_length * (1. - SMALLEST_INTERVAL_RATIO)) {
           propagate_to_right = false;
         }
 
@@ -655,6 +659,7 @@ void GeodesicAlgorithmExact::update_list_and_queue(list_pointer list,
                                                    IntervalWithStop* candidates, // up to two candidates
                                                    unsigned num_candidates) {
   assert(num_candidates <= 2);
+  if (num_candidates == 0) return;
   // assert(list->first() != nullptr);
   Edge edge = list->edge();
   double edge_length = geom.edgeLengths[edge];
@@ -920,7 +925,7 @@ GeodesicAlgorithmExact::compute_propagated_parameters(double pseudo_x, double ps
     p->stop() = L;
     p->d() = d;
     p->pseudo_x() = cos_alpha * pseudo_x + sin_alpha * pseudo_y;
-    p->pseudo_y() = -sin_alpha * pseudo_x + cos_alpha * pseudo_y;
+    p->pseudo_y() = std::min(0., -sin_alpha * pseudo_x + cos_alpha * pseudo_y);
 
     return 1;
   }
@@ -929,7 +934,7 @@ GeodesicAlgorithmExact::compute_propagated_parameters(double pseudo_x, double ps
   p->stop() = L2;
   p->d() = d;
   p->pseudo_x() = cos_alpha * pseudo_x + sin_alpha * pseudo_y;
-  p->pseudo_y() = -sin_alpha * pseudo_x + cos_alpha * pseudo_y;
+  p->pseudo_y() = std::min(0., -sin_alpha * pseudo_x + cos_alpha * pseudo_y);
   assert(p->pseudo_y() <= 0.0);
 
   if (!(last_interval && turn_right)) {
@@ -998,6 +1003,10 @@ void GeodesicAlgorithmExact::construct_propagated_intervals(bool invert, Halfedg
   if (edge_length - second->stop() < local_epsilon) {
     second->stop() = edge_length;
   }
+  if (num_candidates == 1 && first->stop() - first->start() < 1e-12 * edge_length) { // empty, up to rounding
+    num_candidates = 0;
+    return;
+  }
 
 
   // invert intervals if necessary; fill missing data and set pointers
-- 
2.43.0


From 3688974362e6f93eceabe3f122b82ae97b4c0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 048/124] fix: exact geodesic gradients and logarithms use the
 rescaled angles of the vertex tangent space

---
 src/surface/exact_geodesic_helpers.cpp | 6 +++++-
 src/surface/exact_geodesics.cpp        | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/surface/exact_geodesic_helpers.cpp b/src/surface/exact_geodesic_helpers.cpp
index 773fc56..e466a91 100644
--- a/src/surface/exact_geodesic_helpers.cpp
+++ b/src/surface/exact_geodesic_helpers.cpp
@@ -414,7 +414,11 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
     // Transform from face to halfedge
     vTransformed /= geom.halfedgeVectorsInFace[heShared];
 
-    // Transform from halfedge to vertex
+    // Transform from halfedge to vertex, rescaling the angle as the tangent space at the vertex does
+    geom.requireVertexAngleSums();
+    double angleScale = (p.vertex.isBoundary() ? PI : 2. * PI) / geom.vertexAngleSums[p.vertex];
+    geom.unrequireVertexAngleSums();
+    vTransformed = norm(vTransformed) * Vector2::fromAngle(angleScale * arg(vTransformed));
     vTransformed *= geom.halfedgeVectorsInVertex[heShared];
     break;
   }
diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index b5116a3..48b9dc9 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1138,13 +1138,13 @@ Vector2 GeodesicAlgorithmExact::getDistanceGradient(const SurfacePoint& point) c
     return result;
   };
 
-  // gradient vector in face fShared
+  // vector towards closestPoint in face fShared
   Vector2 faceDisplacement =
-      barycentricDisplacementToCartesian(vertexCoordinatesInTriangle(geom, fShared), baryPoint - baryClosestPoint);
+      barycentricDisplacementToCartesian(vertexCoordinatesInTriangle(geom, fShared), baryClosestPoint - baryPoint);
 
   Vector2 displacement = exactgeodesic::transformToCoordinateSystem(geom, faceDisplacement, fShared, point);
 
-  return displacement.normalize();
+  return -displacement.normalize();
 }
 
 Vector2 GeodesicAlgorithmExact::getLog(const SurfacePoint& point) const {
-- 
2.43.0


From ce080ee1a1426bde9ad740446c40376e29f7433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 049/124] fix: exact geodesic paths do not end in two copies of
 the source

---
 src/surface/exact_geodesics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 48b9dc9..b1f1f8b 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1322,7 +1322,10 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
   }
 
   SurfacePoint source = static_cast<SurfacePoint>(m_sources[source_index]);
-  if (exactgeodesic::compute_surface_distance(geom, path.back(), source) > 0) {
+  double remaining = exactgeodesic::compute_surface_distance(geom, path.back(), source);
+  if (path.size() > 1 && remaining <= SMALLEST_INTERVAL_RATIO * pathLength) {
+    path.back() = source; // the last traced point is the source, up to rounding
+  } else if (remaining > 0) {
     path.push_back(source);
   }
 
-- 
2.43.0


From 020d654dd71e26241d19a07debefd43297b46de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 050/124] fix: SurfacePoint adjacency ignores boundary loops
 and sees every edge of general meshes

---
 include/geometrycentral/surface/surface_point.ipp |  4 ++--
 src/surface/surface_point.cpp                     | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 157c7c1..b8dccbf 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -308,8 +308,8 @@ inline Edge sharedEdge(const SurfacePoint& pA, const SurfacePoint& pB) {
   case SurfacePointType::Vertex: {
     switch (pB.type) {
     case SurfacePointType::Vertex:
-      for (Halfedge he : pA.vertex.outgoingHalfedges()) {
-        if (he.tipVertex() == pB.vertex) return he.edge();
+      for (Edge e : pA.vertex.adjacentEdges()) {
+        if (e.otherVertex(pA.vertex) == pB.vertex) return e;
       }
       break;
     case SurfacePointType::Edge:
diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..d474459 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -18,10 +18,10 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 }
 
 bool checkAdjacent(Vertex vA, Edge eB) {
-  bool adjacent = false;
+  bool adjacent = (eB.firstVertex() == vA || eB.secondVertex() == vA);
   for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
-    if (eB == he.edge()) adjacent = true;
+    // boundary loops are not shared simplices
+    if (he.isInterior() && eB == he.next().edge()) adjacent = true;
   }
   return adjacent;
 }
@@ -40,10 +40,11 @@ bool checkAdjacent(Edge eA, Edge eB) {
   bool adjacent = false;
 
   // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
+  for (Face f : eA.adjacentFaces()) {
+    for (Edge eN : f.adjacentEdges()) {
+      if (eN == eB) adjacent = true;
+    }
+  }
 
   return adjacent;
 }
-- 
2.43.0


From b4a2e64ea55e8aef44e19312d063578355843041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 051/124] fix: the BarycentricVector of two points on an edge
 points from the first to the second

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..cc296e5 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a}; // the point at t has coordinates (1 - t, t)
     return;
   }
 
-- 
2.43.0


From 591842bb4fd56936cfb3fa1a4e395b216963519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 052/124] fix: BarycentricVector::inFace rejects faces which do
 not contain the edge

---
 include/geometrycentral/surface/barycentric_vector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index cc296e5..89da5fb 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -117,9 +117,11 @@ inline BarycentricVector BarycentricVector::inFace(Face targetFace) const {
       return BarycentricVector(targetFace, faceCoords);
     }
     he = he.next();
-    Vector3 faceCoords =
-        he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
-    return BarycentricVector(targetFace, faceCoords);
+    if (edge == he.edge()) {
+      Vector3 faceCoords =
+          he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
+      return BarycentricVector(targetFace, faceCoords);
+    }
     break;
   }
   case BarycentricVectorType::Vertex:
-- 
2.43.0


From b2a5b63ecc2d0404e1debeae3111cf01b65b9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 053/124] fix: sharedEdge of two vertex vectors sees every edge

---
 include/geometrycentral/surface/barycentric_vector.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 89da5fb..fec5b34 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -628,8 +628,8 @@ inline Edge sharedEdge(const BarycentricVector& u, const BarycentricVector& w) {
         if (u.vertex == v) return e;
       }
     } else {
-      for (Halfedge he : u.vertex.outgoingHalfedges()) {
-        if (he.tipVertex() == w.vertex) return he.edge();
+      for (Edge e : u.vertex.adjacentEdges()) {
+        if (e.otherVertex(u.vertex) == w.vertex) return e;
       }
     }
   }
-- 
2.43.0


From d7a880ff297c0ef88261ebc16fbd83ed759edec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 054/124] fix: define the declared cartesianVectorToBarycentric

---
 .../geometrycentral/surface/barycentric_coordinate_helpers.ipp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp b/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp
index 5e50235..9a4c926 100644
--- a/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp
+++ b/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp
@@ -25,7 +25,7 @@ inline Vector2 barycentricDisplacementToCartesian(const std::array<Vector2, 3>&
   return vertCoords[0] * baryVec.x + vertCoords[1] * baryVec.y + vertCoords[2] * baryVec.z;
 }
 
-inline Vector3 cartesianVectorToBarycentric(const std::array<Vector2, 3>& vertCoords, Vector2 faceVec, bool verbose) {
+inline Vector3 cartesianVectorToBarycentric(const std::array<Vector2, 3>& vertCoords, Vector2 faceVec) {
 
 
   // Build matrix for linear transform problem
-- 
2.43.0


From 2fce23b3c178d229433dab983fa1c235b33c69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 055/124] fix: unpackMatrixToStdVector keeps the entry type

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..7ea56c7 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0


From 5cd3d641428d431f67c4753f3bb53df594f86294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 056/124] fix: checkFinite of row vectors reads the row

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 7ea56c7..f0d93fe 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(0, j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From 9cf147b0cb487e028508a1f173b60b093706eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 057/124] fix: smallestKEigenvectorsPositiveDefiniteTol
 terminates although the previous vectors are inexact

---
 src/numerical/eigenproblem_solvers.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/numerical/eigenproblem_solvers.cpp b/src/numerical/eigenproblem_solvers.cpp
index 567a56e..e4939ca 100644
--- a/src/numerical/eigenproblem_solvers.cpp
+++ b/src/numerical/eigenproblem_solvers.cpp
@@ -108,11 +108,22 @@ std::vector<Vector<T>> smallestKEigenvectorsPositiveDefiniteTol(SparseMatrix<T>&
     }
   };
 
+  // Residual orthogonal to the previous vectors. The rest stems from the error of those vectors, and does not decrease.
+  auto projectedResidual = [&](const Vector<T>& x) {
+    T candidateEigenvalue = x.dot(energyMatrix * x);
+    Vector<T> err = energyMatrix * x - candidateEigenvalue * massMatrix * x;
+    for (Vector<T>& v : res) {
+      T proj = v.dot(err);
+      err -= proj * (massMatrix * v);
+    }
+    return norm(err, massMatrix);
+  };
+
   for (size_t kEig = 0; kEig < kEigenvalues; kEig++) {
     Vector<T> u = Vector<T>::Random(N);
     projectOutPreviousVectors(u);
     Vector<T> x = u;
-    double residual = eigenvectorResidual(energyMatrix, massMatrix, x);
+    double residual = projectedResidual(x);
     while (residual > tol) {
       // Solve
       solver.solve(x, massMatrix * u);
@@ -122,7 +133,7 @@ std::vector<Vector<T>> smallestKEigenvectorsPositiveDefiniteTol(SparseMatrix<T>&
 
       // Update
       u = x;
-      residual = eigenvectorResidual(energyMatrix, massMatrix, x);
+      residual = projectedResidual(x);
     }
 
     res.push_back(x);
-- 
2.43.0


From 70f7ddd858b1b434eb6a708682880456d917667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 058/124] fix: intrinsic Delaunay flips skip boundary edges, so
 the robust heat distance works on meshes with boundary

---
 src/surface/simple_idt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..9b22036 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -118,8 +118,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
 
   auto flipEdgeIfNotDelaunay = [&](Edge e) {
     // Can't flip
-    //if (e.isBoundary()) return false;
-    if (e.isBoundary()) throw std::runtime_error("boundary");
+    if (e.isBoundary()) return false;
     if (!e.isManifold()) throw std::runtime_error("nonmanifold");
 
     // Don't want to flip
-- 
2.43.0


From dc539da6d2d1c4ec19a4ab6b95d00ea6d4168d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 059/124] fix: vector heat log maps: the Poisson factorization
 failed on surfaces whose Laplacian is exactly singular

---
 src/surface/vector_heat_method.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 081ecbb..7ef5c4d 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -152,7 +152,9 @@ void VectorHeatMethodSolver::ensureHavePoissonSolver() {
   SparseMatrix<double>& L = geom.cotanLaplacian;
 
   // Build the operator
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // (L has constant functions in its kernel; shift it slightly so that the factorization is always possible)
+  SparseMatrix<double> Ls = L + 1e-8 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
-- 
2.43.0


From 4f5f829ee1f7f617448f313dc219a86479f56d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 060/124] fix: transportTangentVectors: vectors given at edge
 and face points are expressed in that point's tangent space

---
 src/surface/vector_heat_method.cpp | 46 ++++++++++++++++--------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 7ef5c4d..f7d1a80 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -249,6 +249,8 @@ VectorHeatMethodSolver::transportTangentVectors(const std::vector<std::tuple<Sur
   }
 
   geom.requireVertexIndices();
+  geom.requireHalfedgeVectorsInVertex();
+  geom.requireHalfedgeVectorsInFace();
 
 
   // === Setup work
@@ -278,29 +280,29 @@ VectorHeatMethodSolver::transportTangentVectors(const std::vector<std::tuple<Sur
     // Add to the list of magnitudes for magnitude interpolation
     magnitudeSources.emplace_back(point, vec.norm());
 
-    SurfacePoint facePoint = point.inSomeFace();
-    Halfedge he = facePoint.face.halfedge();
-
-    { // First adjacent vertex
-      size_t vInd = geom.vertexIndices[he.vertex()];
-      double w = facePoint.faceCoords.x;
-      dirRHS[vInd] += w * unitVec;
+    // Accumulate at the adjacent vertices, rotating from the tangent space of the source point to that of the vertex
+    switch (point.type) {
+    case SurfacePointType::Vertex: {
+      dirRHS[geom.vertexIndices[point.vertex]] += unitVec;
+      break;
     }
-    he = he.next();
-
-
-    { // Second adjacent vertex
-      size_t vInd = geom.vertexIndices[he.vertex()];
-      double w = facePoint.faceCoords.y;
-      dirRHS[vInd] += w * unitVec;
+    case SurfacePointType::Edge: {
+      Halfedge he = point.edge.halfedge();
+      std::complex<double> tailRot = geom.halfedgeVectorsInVertex[he].normalize();
+      std::complex<double> tipRot = -geom.halfedgeVectorsInVertex[he.twin()].normalize();
+      dirRHS[geom.vertexIndices[he.vertex()]] += (1. - point.tEdge) * tailRot * unitVec;
+      dirRHS[geom.vertexIndices[he.twin().vertex()]] += point.tEdge * tipRot * unitVec;
+      break;
+    }
+    case SurfacePointType::Face: {
+      int iC = 0;
+      for (Halfedge he : point.face.adjacentHalfedges()) {
+        std::complex<double> rot = (geom.halfedgeVectorsInVertex[he] / geom.halfedgeVectorsInFace[he]).normalize();
+        dirRHS[geom.vertexIndices[he.vertex()]] += point.faceCoords[iC] * rot * unitVec;
+        iC++;
+      }
+      break;
     }
-    he = he.next();
-
-
-    { // Third adjacent vertex
-      size_t vInd = geom.vertexIndices[he.vertex()];
-      double w = facePoint.faceCoords.z;
-      dirRHS[vInd] += w * unitVec;
     }
   }
 
@@ -338,6 +340,8 @@ VectorHeatMethodSolver::transportTangentVectors(const std::vector<std::tuple<Sur
 
 
   geom.unrequireVertexIndices();
+  geom.unrequireHalfedgeVectorsInVertex();
+  geom.unrequireHalfedgeVectorsInFace();
   return result;
 }
 
-- 
2.43.0


From 26f29c5dba1b0e2e86c526cf90ac8f9bf07172b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 061/124] fix: signed heat method: orientation of curve
 segments which run along part of an edge

---
 src/surface/signed_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 4673618..3ea4ad9 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -213,7 +213,7 @@ void SignedHeatSolver::buildSignedCurveSource(const Curve& curve, Vector<std::co
     if (commonEdge != Edge()) {
       size_t eIdx = geom.edgeIndices[commonEdge];
       std::complex<double> innerProd(0, 1);
-      if (pA.vertex == commonEdge.secondVertex()) innerProd.imag(-1);
+      if (pA.inEdge(commonEdge).tEdge > pB.inEdge(commonEdge).tEdge) innerProd.imag(-1);
       double length = lengthOfSegment(pA, pB);
       std::complex<double> contrib = length * innerProd;
       X0[eIdx] += contrib;
-- 
2.43.0


From 78200f94e064081f699e3071d2c32142ca405e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 062/124] fix: signed heat method without level set constraint:
 the Poisson factorization failed on surfaces whose Laplacian is exactly
 singular

---
 src/surface/signed_heat_method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 3ea4ad9..6a7c36e 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -791,7 +791,8 @@ void SignedHeatSolver::ensureHavePoissonSolver() {
 
   geom.requireCotanLaplacian();
 
-  SparseMatrix<double>& L = geom.cotanLaplacian;
+  // (the Laplacian has constant functions in its kernel; shift it slightly so that the factorization is always possible)
+  SparseMatrix<double> L = geom.cotanLaplacian + 1e-8 * identityMatrix<double>(mesh.nVertices());
   poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
 
   geom.unrequireCotanLaplacian();
-- 
2.43.0


From 055e162d393776aff2a94ad25686f5a8e4be3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 063/124] fix: signed heat method: level set constraints gave
 singular systems (NaN, or a failed factorization)

---
 src/surface/signed_heat_method.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 6a7c36e..074b723 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -626,10 +626,13 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
   A.setFromTriplets(triplets.begin(), triplets.end());
 
   // Assemble and solve system.
+  // (Neither the Laplacian nor the constraints determine the additive constant, and constraints may be redundant; shift
+  // both diagonal blocks slightly so that the system is always solvable.)
   Vector<double> phi;
+  SparseMatrix<double> L = geom.cotanLaplacian + 1e-8 * identityMatrix<double>(V);
   if (options.softLevelSetWeight < 0.) {
-    SparseMatrix<double> Z(m, m);
-    SparseMatrix<double> LHS1 = horizontalStack<double>({geom.cotanLaplacian, A.transpose()});
+    SparseMatrix<double> Z = -1e-8 * identityMatrix<double>(m);
+    SparseMatrix<double> LHS1 = horizontalStack<double>({L, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
     Vector<double> RHS = Vector<double>::Zero(V + m);
@@ -637,7 +640,7 @@ Vector<double> SignedHeatSolver::integrateWithLevelSetConstraints(const Vector<d
     Vector<double> soln = solveSquare(LHS, RHS);
     phi = soln.head(V);
   } else {
-    SparseMatrix<double> LHS = geom.cotanLaplacian + options.softLevelSetWeight * A.transpose() * A;
+    SparseMatrix<double> LHS = L + options.softLevelSetWeight * A.transpose() * A;
     phi = solvePositiveDefinite(LHS, rhs);
   }
 
-- 
2.43.0


From 35dcb8ba4b405dded9294f54a688dd030d39bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 064/124] fix: adaptive log map read the transported field at
 compressed indices, failing on meshes with deleted elements

---
 src/surface/vector_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index f7d1a80..7498415 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -417,7 +417,7 @@ VertexData<Vector2> VectorHeatMethodSolver::computeLogMap_AffineAdaptive(const V
     // Do the translation using the values at i
     // (we could equivalently do it at j)
     Vector2 eij = geom.halfedgeVectorsInVertex[he];
-    Vector2 Xi = parallel_section[iTail];
+    Vector2 Xi = parallel_section[he.vertex()];
     Vector2 t = -eij / Xi;
 
     // The developing connection
-- 
2.43.0


From 2fe174c9a7b580c9394633106c9982cfb2b19f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 065/124] fix: polygon heat solver: the Poisson factorization
 failed on meshes whose Laplacian is exactly singular

---
 src/surface/polygon_mesh_heat_solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index a75f5c0..f18a16f 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -48,7 +48,9 @@ void PolygonMeshHeatSolver::ensureHaveVectorHeatSolver() {
 void PolygonMeshHeatSolver::ensureHavePoissonSolver() {
   if (poissonSolver != nullptr) return;
 
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(laplaceMat));
+  // (the Laplacian has constant functions in its kernel; shift it slightly so that the factorization is always possible)
+  SparseMatrix<double> L = laplaceMat + 1e-8 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
 }
 
 VertexData<double> PolygonMeshHeatSolver::computeDistance(const Vertex& sourceVert) {
-- 
2.43.0


From aca058009c30249df170cb6268d0a0495480ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 066/124] fix: polygon heat solver: multiple level set
 constraints gave singular systems (NaN)

---
 src/surface/polygon_mesh_heat_solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index f18a16f..08981e4 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -254,8 +254,11 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
     }
     A.resize(m, V);
     A.setFromTriplets(triplets.begin(), triplets.end());
-    SparseMatrix<double> Z(m, m);
-    SparseMatrix<double> LHS1 = horizontalStack<double>({laplaceMat, A.transpose()});
+    // (Neither the Laplacian nor the constraints determine the additive constant, and constraints may be redundant; shift
+    // both diagonal blocks slightly so that the system is always solvable.)
+    SparseMatrix<double> L = laplaceMat + 1e-8 * identityMatrix<double>(V);
+    SparseMatrix<double> Z = -1e-8 * identityMatrix<double>(m);
+    SparseMatrix<double> LHS1 = horizontalStack<double>({L, A.transpose()});
     SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
     SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
     Vector<double> RHS = Vector<double>::Zero(V + m);
-- 
2.43.0


From 92dc9b72642f998b4adf02a69a77245ef2d29efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 067/124] fix: polygon heat solver: scalar extension and vector
 transport mixed element ids with dense indices, wrong on meshes with deleted
 elements

---
 src/surface/polygon_mesh_heat_solver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 08981e4..736891c 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -104,16 +104,18 @@ VertexData<double> PolygonMeshHeatSolver::extendScalars(const std::vector<std::t
   GC_SAFETY_ASSERT(sources.size() != 0, "must have at least one source");
 
   ensureHaveScalarHeatSolver();
+  geom.requireVertexIndices();
 
   size_t V = mesh.nVertices();
   Vector<double> rhsVals = Vector<double>::Zero(V);
   Vector<double> rhsOnes = Vector<double>::Zero(V);
   for (size_t i = 0; i < sources.size(); i++) {
-    size_t ind = std::get<0>(sources[i]).getIndex();
+    size_t ind = geom.vertexIndices[std::get<0>(sources[i])];
     double val = std::get<1>(sources[i]);
     rhsVals[ind] = val;
     rhsOnes[ind] = 1.;
   }
+  geom.unrequireVertexIndices();
 
   Vector<double> interpVals = scalarHeatSolver->solve(rhsVals);
   Vector<double> interpOnes = scalarHeatSolver->solve(rhsOnes);
@@ -155,7 +157,6 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
       normsAllSame = false;
     }
   }
-  geom.unrequireVertexIndices();
 
   // Transport
   Vector<std::complex<double>> vecSolution = vectorHeatSolver->solve(dirRHS);
@@ -164,14 +165,15 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
   VertexData<Vector2> solution(mesh);
   if (normsAllSame) {
     vecSolution = (vecSolution.array() / vecSolution.array().abs()) * firstNorm;
-    for (size_t i = 0; i < V; i++) solution[i] = Vector2::fromComplex(vecSolution[i]);
+    for (Vertex v : mesh.vertices()) solution[v] = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]);
   } else {
     VertexData<double> interpMags = extendScalars(magnitudeSources);
-    for (size_t i = 0; i < V; i++) {
-      Vector2 dir = Vector2::fromComplex(vecSolution[i]).normalize();
-      solution[i] = dir * interpMags[i];
+    for (Vertex v : mesh.vertices()) {
+      Vector2 dir = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]).normalize();
+      solution[v] = dir * interpMags[v];
     }
   }
+  geom.unrequireVertexIndices();
 
   return solution;
 }
-- 
2.43.0


From 2790bb6dbf0dc6b2fde467e56d40c2fae38a4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 068/124] fix: exact geodesics: take the position of an edge
 point from its own coordinate, which is right for self-edges too

---
 src/surface/exact_geodesics.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index b1f1f8b..77d6ffc 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -168,11 +168,7 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
     Edge e = point.edge;
     const_list_pointer list = interval_list(e);
 
-    Vertex gcTail = e.halfedge().tailVertex();
-
-    // TODO: extrinsic distance
-    double edgeLength = geom.edgeLengths[e];
-    double position = std::min(exactgeodesic::compute_surface_distance(geom, point, gcTail), edgeLength);
+    double position = point.tEdge * geom.edgeLengths[e];
 
     const_interval_pointer interval = list->covering_interval(position);
     // assert(interval);
@@ -1214,9 +1210,7 @@ const_interval_pointer GeodesicAlgorithmExact::best_first_interval(const Surface
     Edge e = point.edge;
     const_list_pointer list = interval_list(e);
 
-    Vertex gcTail = e.halfedge().tailVertex();
-
-    best_interval_position = exactgeodesic::compute_surface_distance(geom, point, gcTail);
+    best_interval_position = point.tEdge * geom.edgeLengths[e];
     best_interval = list->covering_interval(best_interval_position);
     if (best_interval) {
       // assert(best_interval && best_interval->d() < GEODESIC_INF);
-- 
2.43.0


From b6f676f2a9ce3dac93713ff57e1a5693c12c6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 069/124] fix: fast marching from a point in a face used wrong
 distances to two of the corners

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 417e782..85a7e8c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -170,9 +170,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double u = p.faceCoords[0];
         double v = p.faceCoords[1];
         double w = p.faceCoords[2];
-        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lAB2 * v * w; // squared distance from p to vA
+        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
-        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lBC2 * u * v; // squared distance from p to vC
+        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-- 
2.43.0


From da3c49a1653a201ab5869351186c600054fa514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 070/124] fix: fast marching on a general surface mesh missed
 the edges and triangles whose halfedges do not point to the vertex

---
 src/surface/fast_marching_method.cpp | 40 ++++++++--------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 85a7e8c..6667118 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -206,13 +206,13 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
     nFound++;
 
     // Add any eligible neighbors
-    for (Halfedge he : currV.incomingHalfedges()) {
-      Vertex neighVert = he.vertex();
+    for (Edge e : currV.adjacentEdges()) {
+      Vertex neighVert = e.otherVertex(currV);
 
       // Add with length
       if (!finalized[neighVert] && !isSource[neighVert]) {
         if (signs[neighVert] == 0) signs[neighVert] = signs[currV];
-        double newDist = currDist + signs[neighVert] * geometry.edgeLengths[he.edge()];
+        double newDist = currDist + signs[neighVert] * geometry.edgeLengths[e];
         if (signs[neighVert] * newDist < signs[neighVert] * distances[neighVert] || std::isinf(distances[neighVert])) {
           frontierPQ.push(std::make_pair(newDist, neighVert));
           distances[neighVert] = newDist;
@@ -220,39 +220,21 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         continue;
       }
 
-      // Check the third point of the "left" triangle straddling this edge
-      if (he.isInterior()) {
+      // Check the third point of the triangles on either side of this edge
+      for (Halfedge he : e.adjacentInteriorHalfedges()) {
         Vertex newVert = he.next().next().vertex();
         if (!finalized[newVert] && !isSource[newVert]) {
 
           // Compute the distance
-          double lenB = geometry.edgeLengths[he.next().next().edge()];
+          bool startsAtCurr = he.vertex() == currV;
+          Edge edgeToCurr = startsAtCurr ? he.next().next().edge() : he.next().edge();
+          Edge edgeToNeigh = startsAtCurr ? he.next().edge() : he.next().next().edge();
+          double lenB = geometry.edgeLengths[edgeToNeigh];
           double distB = currDist;
-          double lenA = geometry.edgeLengths[he.next().edge()];
+          double lenA = geometry.edgeLengths[edgeToCurr];
           double distA = distances[neighVert];
           double theta = geometry.cornerAngles[he.next().next().corner()];
-          if (signs[newVert] == 0) signs[newVert] = (signs[currV] != 0) ? signs[currV] : signs[he.next().vertex()];
-          double newDist = eikonalDistanceSubroutine(lenA, lenB, theta, distA, distB, signs[newVert]);
-          if (signs[newVert] * newDist < signs[newVert] * distances[newVert] || std::isinf(distances[newVert])) {
-            frontierPQ.push(std::make_pair(newDist, newVert));
-            distances[newVert] = newDist;
-          }
-        }
-      }
-
-      // Check the third point of the "right" triangle straddling this edge
-      Halfedge heT = he.twin();
-      if (heT.isInterior()) {
-        Vertex newVert = heT.next().next().vertex();
-        if (!finalized[newVert] && !isSource[newVert]) {
-
-          // Compute the distance
-          double lenB = geometry.edgeLengths[heT.next().edge()];
-          double distB = currDist;
-          double lenA = geometry.edgeLengths[heT.next().next().edge()];
-          double distA = distances[neighVert];
-          double theta = geometry.cornerAngles[heT.next().next().corner()];
-          if (signs[newVert] == 0) signs[newVert] = (signs[currV] != 0) ? signs[currV] : signs[he.next().vertex()];
+          if (signs[newVert] == 0) signs[newVert] = signs[currV];
           double newDist = eikonalDistanceSubroutine(lenA, lenB, theta, distA, distB, signs[newVert]);
           if (signs[newVert] * newDist < signs[newVert] * distances[newVert] || std::isinf(distances[newVert])) {
             frontierPQ.push(std::make_pair(newDist, newVert));
-- 
2.43.0


From 15651c039712207e11d9e7d5b78f84cfd54a8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 071/124] fix: fast marching from points in edges and faces
 ignored shorter ways to the surrounding vertices

---
 src/surface/fast_marching_method.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 6667118..b91390d 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -152,8 +152,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double l = geometry.edgeLengths[p.edge];
         frontierPQ.push(std::make_pair(x.second + signs[vA] * p.tEdge * l, vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * (1. - p.tEdge) * l, vB));
-        isSource[vA] = true;
-        isSource[vB] = true;
+        // for unsigned distance, the ends of the edge may be closer to other parts of the source
+        if (sign) isSource[vA] = true;
+        if (sign) isSource[vB] = true;
         break;
       }
       case (SurfacePointType::Face): {
@@ -176,9 +177,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-        isSource[vA] = true;
-        isSource[vB] = true;
-        isSource[vC] = true;
+        if (sign) isSource[vA] = true;
+        if (sign) isSource[vB] = true;
+        if (sign) isSource[vC] = true;
         break;
       }
       }
-- 
2.43.0


From 9fda4e67db19cb49923a4d61e9e31419b518a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 072/124] fix: signed fast marching took the largest instead of
 the smallest distance on the negative side

---
 src/surface/fast_marching_method.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index b91390d..e4cf704 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -11,8 +11,7 @@ namespace {
 
 // The super fun quadratic distance function in the Fast Marching Method on triangle meshes
 // TODO parameter c isn't actually defined in paper, so I guessed that it was an error
-double eikonalDistanceSubroutine(double a, double b, double theta, double dA, double dB, int sign) {
-
+double eikonalDistanceSubroutine(double a, double b, double theta, double dA, double dB) {
 
   if (theta <= PI / 2.0) {
     double u = dB - dA;
@@ -25,24 +24,24 @@ double eikonalDistanceSubroutine(double a, double b, double theta, double dA, do
     double quadC = b * b * (u * u - a * a * sTheta2);
     double sqrtVal = std::sqrt(quadB * quadB - 4 * quadA * quadC);
     double tVals[] = {(-quadB + sqrtVal) / (2 * quadA), (-quadB - sqrtVal) / (2 * quadA)};
-    double t = sign > 0 ? tVals[0] : tVals[1];
+    double t = tVals[0];
     double y = b * (t - u) / t;
-    if (u < sign * t && a * cTheta < y && y < a / cTheta) {
+    if (u < t && a * cTheta < y && y < a / cTheta) {
       return dA + t;
     } else {
-      return std::min(b * sign + dA, a * sign + dB);
+      return std::min(b + dA, a + dB);
     }
 
   }
   // Custom by Nick to get acceptable results in obtuse triangles without fancy unfolding
   else {
-    double maxDist = std::max(sign * dA, sign * dB); // all points on base are less than this far away, by convexity
+    double maxDist = std::max(dA, dB); // all points on base are less than this far away, by convexity
     double c = std::sqrt(a * a + b * b - 2 * a * b * std::cos(theta));
     double area = 0.5 * std::sin(theta) * a * b;
     double altitude = 2 * area / c; // distance to base, must be inside triangle since obtuse
     double baseDist = maxDist + altitude;
 
-    return std::min({b * sign + dA, a * sign + dB, sign * baseDist});
+    return std::min({b + dA, a + dB, baseDist});
   }
 }
 
@@ -211,7 +210,8 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
       Vertex neighVert = e.otherVertex(currV);
 
       // Add with length
-      if (!finalized[neighVert] && !isSource[neighVert]) {
+      if (!finalized[neighVert]) {
+        if (isSource[neighVert]) continue;
         if (signs[neighVert] == 0) signs[neighVert] = signs[currV];
         double newDist = currDist + signs[neighVert] * geometry.edgeLengths[e];
         if (signs[neighVert] * newDist < signs[neighVert] * distances[neighVert] || std::isinf(distances[neighVert])) {
@@ -236,7 +236,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           double distA = distances[neighVert];
           double theta = geometry.cornerAngles[he.next().next().corner()];
           if (signs[newVert] == 0) signs[newVert] = signs[currV];
-          double newDist = eikonalDistanceSubroutine(lenA, lenB, theta, distA, distB, signs[newVert]);
+          // on the negative side, negated distances are propagated
+          int s = signs[newVert];
+          double newDist = s * eikonalDistanceSubroutine(lenA, lenB, theta, s * distA, s * distB);
           if (signs[newVert] * newDist < signs[newVert] * distances[newVert] || std::isinf(distances[newVert])) {
             frontierPQ.push(std::make_pair(newDist, newVert));
             distances[newVert] = newDist;
-- 
2.43.0


From fc599f8f0744a7d455b157617987c87467fcbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 073/124] fix: signed fast marching confused the sides of
 curves along edges and around their vertices

---
 src/surface/fast_marching_method.cpp | 53 +++++++++++++++++++---------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index e4cf704..6a25c1c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -81,9 +81,12 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
   // Initialize signs
   if (sign) {
     for (Vertex v : mesh.vertices()) signs[v] = 0;
+    EdgeData<char> alongCurve(mesh, false);
+    FaceData<char> cutFace(mesh, false);
+    FaceData<int> faceSides(mesh, 0); // side of the faces next to the curve which it does not cut
     for (auto& curve : initialDistances) {
       size_t nNodes = curve.size();
-      for (size_t i = 0; i < nNodes - 1; i++) {
+      for (size_t i = 0; i + 1 < nNodes; i++) {
         const SurfacePoint& pA = curve[i].first;
         const SurfacePoint& pB = curve[i + 1].first;
         Edge commonEdge = sharedEdge(pA, pB);
@@ -91,13 +94,20 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           // Assign +/- signs to the "third" vertices of each face straddling this edge.
           // These vertices might themselves lie on the curve, in which case we overwrite them below.
           Halfedge he = commonEdge.halfedge();
-          signs[he.next().tipVertex()] = (he.vertex() == pA.vertex) ? -1 : 1;
-          if (!commonEdge.isBoundary()) signs[he.twin().next().tipVertex()] = -signs[he.next().tipVertex()];
+          int side = (pA.inEdge(commonEdge).tEdge < pB.inEdge(commonEdge).tEdge) ? -1 : 1; // left of he
+          signs[he.next().tipVertex()] = side;
+          faceSides[he.face()] = side;
+          if (!commonEdge.isBoundary()) {
+            signs[he.twin().next().tipVertex()] = -side;
+            faceSides[he.twin().face()] = -side;
+          }
+          alongCurve[commonEdge] = true;
         } else {
           Face commonFace = sharedFace(pA, pB);
           if (commonFace == Face()) {
             throw std::logic_error("For signed fast marching distance, each curve segment must share a common face.");
           }
+          cutFace[commonFace] = true;
           BarycentricVector tangent(pA, pB);
           BarycentricVector normal = -tangent.rotate90(geometry);
           for (Vertex v : commonFace.adjacentVertices()) {
@@ -107,6 +117,7 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         }
       }
     }
+    VertexData<char> onCurve(mesh, false);
     // Vertices on the curve are always assumed to have positive sign.
     for (auto& curve : initialDistances) {
       size_t nNodes = curve.size();
@@ -114,23 +125,31 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
         signs[p.vertex] = 1;
+        onCurve[p.vertex] = true;
       }
     }
-    // Fill in the signs of faces around the fan of any vertices.
-    for (auto& curve : initialDistances) {
-      size_t nNodes = curve.size();
-      for (size_t i = 0; i < nNodes; i++) {
-        const SurfacePoint& p = curve[i].first;
-        if (p.type != SurfacePointType::Vertex) continue;
-        Halfedge startHe = p.vertex.halfedge();
-        Halfedge currHe = startHe;
-        while (true) {
-          if (signs[currHe.tipVertex()] != 0 && signs[currHe.tipVertex()] != signs[p.vertex] &&
-              signs[currHe.next().tipVertex()] == 0) {
-            signs[currHe.next().tipVertex()] = -1;
+    // Fill in the signs of faces around the fan of any vertices: neighboring faces are on the same side unless the curve
+    // runs along their common edge or cuts them.
+    std::vector<Edge> fanEdges;
+    for (Edge e : mesh.edges()) {
+      if (e.isBoundary() || alongCurve[e]) continue;
+      if (onCurve[e.firstVertex()] || onCurve[e.secondVertex()]) fanEdges.push_back(e);
+    }
+    bool anyChanged = true;
+    while (anyChanged) {
+      anyChanged = false;
+      for (Edge e : fanEdges) {
+        Vertex vOff = onCurve[e.firstVertex()] ? e.secondVertex() : e.firstVertex();
+        Face faces[2] = {e.halfedge().face(), e.halfedge().twin().face()};
+        for (int i = 0; i < 2; i++) {
+          if (faceSides[faces[i]] != 0 || cutFace[faces[i]]) continue;
+          int side = cutFace[faces[1 - i]] ? (onCurve[vOff] ? 0 : signs[vOff]) : faceSides[faces[1 - i]];
+          if (side == 0) continue;
+          faceSides[faces[i]] = side;
+          for (Vertex v : faces[i].adjacentVertices()) {
+            if (signs[v] == 0) signs[v] = side;
           }
-          currHe = currHe.next().next().twin();
-          if (currHe == startHe) break;
+          anyChanged = true;
         }
       }
     }
-- 
2.43.0


From f7143d40907b47f7087ee92b9a170c2b3eaa6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 074/124] fix: vertexDijkstraDistanceWithinRadius kept the edge
 lengths required

---
 src/surface/mesh_graph_algorithms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mesh_graph_algorithms.cpp b/src/surface/mesh_graph_algorithms.cpp
index d08c106..8c0efff 100644
--- a/src/surface/mesh_graph_algorithms.cpp
+++ b/src/surface/mesh_graph_algorithms.cpp
@@ -125,6 +125,7 @@ std::unordered_map<Vertex, double> vertexDijkstraDistanceWithinRadius(IntrinsicG
     }
   }
 
+  geom.unrequireEdgeLengths();
   return shortestDist;
 }
 
-- 
2.43.0


From 22f749ff27ab2b815739c021e199e3edb5e8830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 075/124] fix: triangle intersection returned uninitialised
 flags and points for disjoint or coplanar triangles

---
 src/utilities/tri_tri_intersect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 231c9c9..e506e2b 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -716,8 +716,8 @@ namespace geometrycentral {
 TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC, Vector3 qA, Vector3 qB, Vector3 qC) {
   double V0[3], V1[3], V2[3];
   double U0[3], U1[3], U2[3];
-  int coplanar;
-  double isectpt1[3], isectpt2[3];
+  int coplanar = 0;                                          // not written if the test exits early
+  double isectpt1[3] = {0., 0., 0.}, isectpt2[3] = {0., 0., 0.}; // not written if there is no segment of intersection
 
   for (int i = 0; i < 3; i++) {
     V0[i] = pA[i];
-- 
2.43.0


From 405d200375934decd97fa1bce995c38191bf43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 076/124] fix: intersections accepted a second mesh with
 polygons

---
 src/surface/intersection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 90100ac..4b39d0c 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -43,6 +43,10 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
       // (otherwise we create redundant output segments)
       if (selfCheck && g.getIndex() >= f.getIndex()) continue;
 
+      if (g.degree() != 3) {
+        throw std::logic_error("only triangle meshes are supported");
+      }
+
       // get vertices vj of g
       int j = 0;
       for (Vertex vj : g.adjacentVertices()) {
-- 
2.43.0


From a6cbfbd533ec2a505b4c67b45f04341176c374fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 077/124] fix: intersections of two different meshes skipped
 the pairs of triangles sharing a vertex index

---
 src/surface/intersection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 4b39d0c..df01712 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -54,8 +54,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         j++;
       }
 
-      // skip triangles that share vertices
-      if (!(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
+      // skip triangles that share vertices (the vertices of two different meshes are never shared)
+      if (&mesh1 != &mesh2 ||
+          !(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
             u[2] == v[0] || u[2] == v[1] || u[2] == v[2])) {
 
         // get vertex locations
-- 
2.43.0


From c5984cfdf2f0aac0c3b6841153a2b256a86b3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 078/124] fix: intersections reported a meaningless segment for
 every pair of coplanar triangles

---
 src/surface/intersection.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index df01712..43b7124 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -73,10 +73,13 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         // add to list of all intersections
         if (r.intersect) {
           intersections.hasIntersections = true;
-          intersections.points.push_back(r.xA);
-          intersections.points.push_back(r.xB);
-          intersections.edges.push_back({n, n + 1});
-          n += 2;
+          // (coplanar triangles overlap in a region, there is no segment of intersection to report)
+          if (!r.coplanar) {
+            intersections.points.push_back(r.xA);
+            intersections.points.push_back(r.xB);
+            intersections.edges.push_back({n, n + 1});
+            n += 2;
+          }
         }
       }
     }
-- 
2.43.0


From ad4e89d7d595ba9649b9152a8c8582eb919ad7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 079/124] fix: level sets through vertices and along edges had
 gaps, repeated, reversed and zero-length segments

---
 src/surface/marching_triangles.cpp | 38 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 5436d8f..4967c80 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -66,32 +66,36 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
   SurfaceMesh& mesh = *u.getMesh();
   std::vector<SurfacePoint> nodes;
   std::vector<std::array<size_t, 2>> edges;
+  EdgeData<bool> levelEdgeDone(mesh, false);
   for (Face f : mesh.faces()) {
     std::vector<SurfacePoint> hits;
+    Edge levelEdge; // an edge of the face which lies entirely in the level set
     BarycentricVector gradient(f);
     for (Halfedge he : f.adjacentHalfedges()) {
-      // Record edge crossings
+      // Record crossings: at the tail vertex of the halfedge, or strictly inside of its edge
       Edge e = he.edge();
-      Vertex v0 = e.firstVertex();
-      Vertex v1 = e.secondVertex();
-      double u0 = u[v0];
-      double u1 = u[v1];
-      double lB = std::min(u0, u1);
-      double uB = std::max(u0, u1);
-      if (lB == uB && lB == isoval) {
-        hits.clear();
-        hits = {SurfacePoint(v0), SurfacePoint(v1)};
-        break;
+      double uTail = u[he.tailVertex()];
+      double uTip = u[he.tipVertex()];
+      if (uTail == isoval) {
+        hits.emplace_back(he.tailVertex());
+        if (uTip == isoval) levelEdge = e;
+      } else if ((uTail < isoval && uTip > isoval) || (uTail > isoval && uTip < isoval)) {
+        double u0 = u[e.firstVertex()];
+        double u1 = u[e.secondVertex()];
+        hits.emplace_back(e, (isoval - u0) / (u1 - u0));
       }
-      double t = (isoval - lB) / (uB - lB);
-      if (u0 > u1) t = 1. - t;
-      if (t <= 1. && t >= 0.) hits.emplace_back(e, t);
       // Compute gradient of the scalar function.
       BarycentricVector heVec(he.next(), f);
       BarycentricVector ePerp = heVec.rotate90(geom);
-      gradient += ePerp * u[he.vertex()];
+      gradient += ePerp * uTail;
     }
+    // (a single hit only touches the level set in a vertex; three hits are a face in which the function is constant)
     if (hits.size() != 2) continue;
+    if (levelEdge != Edge()) {
+      // all faces along this edge see the same segment
+      if (levelEdgeDone[levelEdge]) continue;
+      levelEdgeDone[levelEdge] = true;
+    }
 
     // Orient segments so that smaller values are always on the "inside" of the curve.
     std::array<size_t, 2> seg;
@@ -104,8 +108,8 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
         seg[i] = nodes.size() - 1;
       }
     }
-    BarycentricVector segTangent(hits[0], hits[1]);
-    BarycentricVector segNormal = -segTangent.inFace(f).rotate90(geom);
+    BarycentricVector segTangent(hits[0].inFace(f), hits[1].inFace(f));
+    BarycentricVector segNormal = -segTangent.rotate90(geom);
     if (dot(geom, segNormal, gradient) > 0.) {
       edges.push_back(seg);
     } else {
-- 
2.43.0


From 907c3d6d6369482e01f6b04287b4cdee313ffbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 080/124] fix: Catmull-Clark subdivision used averages of face
 points as edge points and edge midpoints, and read missing faces on the
 boundary

---
 src/surface/subdivide.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index adfe0f0..7b84101 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -101,8 +101,13 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
 
   EdgeData<Vector3> splitEdgePositions(mesh);
   for (Edge e : mesh.edges()) {
-    std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
-    splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+    Vector3 midpoint = (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2.;
+    if (e.isBoundary()) {
+      splitEdgePositions[e] = midpoint;
+    } else {
+      std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
+      splitEdgePositions[e] = midpoint / 2. + (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 4.;
+    }
   }
 
   for (Vertex v : mesh.vertices()) {
@@ -110,7 +115,7 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
     Vector3 S = geo.inputVertexPositions[v];
     Vector3 R = Vector3::zero();
     for (Edge e : v.adjacentEdges()) {
-      R += splitEdgePositions[e] / D;
+      R += (pos[e.firstVertex()] + pos[e.secondVertex()]) / (2. * D);
     }
     Vector3 Q = Vector3::zero();
     for (Face f : v.adjacentFaces()) {
-- 
2.43.0


From 3abb61c5c78bca109d77e9599f3d7de32c557dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 081/124] fix: Catmull-Clark subdivision used the interior rule
 at boundary vertices

---
 src/surface/subdivide.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index 7b84101..33df4a2 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -3,6 +3,17 @@
 namespace geometrycentral {
 namespace surface {
 
+namespace {
+// Boundary curves are subdivided like cubic B-splines
+Vector3 boundaryVertexPosition(const VertexData<Vector3>& pos, Vertex v) {
+  Vector3 newPos = 3. / 4. * pos[v];
+  for (Edge e : v.adjacentEdges()) {
+    if (e.isBoundary()) newPos += pos[e.otherVertex(v)] / 8.;
+  }
+  return newPos;
+}
+} // namespace
+
 void linearSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo) {
 
   VertexData<Vector3>& pos = geo.inputVertexPositions;
@@ -111,6 +122,10 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
   }
 
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      newPositions[v] = boundaryVertexPosition(pos, v);
+      continue;
+    }
     double D = (double)v.degree();
     Vector3 S = geo.inputVertexPositions[v];
     Vector3 R = Vector3::zero();
-- 
2.43.0


From 19832766f1b2d846c4b89134635cacb48109db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 082/124] fix: Loop subdivision used the interior rule at
 boundary vertices

---
 src/surface/subdivide.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index 33df4a2..68be086 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -214,6 +214,10 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   // Compute new positions for original vertices
   VertexData<Vector3> newPositions(mesh);
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      newPositions[v] = boundaryVertexPosition(pos, v);
+      continue;
+    }
     double n = (double)v.degree();
     double u = (n == 3) ? 3. / 16. : 3. / (8. * n);
     newPositions[v] = (1 - n * u) * pos[v];
-- 
2.43.0


From 7ed7c3e464c65716c47923d513fa309b91f2df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 083/124] fix: collapseEdgeTriangular() threw rather than
 refusing at a vertex of degree 2

---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 3bab835..9f626ee 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1294,8 +1294,8 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     }
 
     else {
-      // return heA0.vertex();
-      throw std::runtime_error("Collapsing interior vertices with degree < 3 is not supported.");
+      // collapsing interior vertices with degree < 3 is not supported
+      return Vertex();
     }
   }
 
-- 
2.43.0


From c527f333632d4c4877ae803ff43348e66cf33a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 084/124] fix: MutationManager::flipEdge() showed the
 before-flip callbacks a mesh with exchanged faces

---
 src/surface/mutation_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..5674e17 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -120,8 +120,9 @@ bool MutationManager::flipEdge(Edge e) {
     return false;
   }
 
-  // Undo the test flip
-  mesh.flip(e);
+  // Undo the test flip. A flip is a quarter turn which moves the two faces and halfedges along, so three more are
+  // needed to put every element back where it was.
+  for (int i = 0; i < 3; i++) mesh.flip(e, false);
 
   // Invoke before callbacks
   for (EdgeFlipPolicy* policy : edgeFlipPolicies) {
-- 
2.43.0


From 0f9f203cc1fe11a5a8150584c9e04921d33cb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 085/124] fix: MutationManager::collapseEdge() to a position
 told the callbacks the parameter -1

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 5674e17..63fc6d8 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -215,7 +215,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From 3a541de783570ed8cbf6914347e963a8bd2aea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 086/124] fix: MutationManager::removePolicy() kept calling a
 destroyed face split policy

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 63fc6d8..b86d2e5 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -394,6 +394,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From 77571ef65a8b335137dc678630b40341aa748b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 087/124] fix: edges of cocircular points were flipped back and
 forth by fixDelaunay()

---
 src/surface/remeshing.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index fa73e07..a5f64b9 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -129,9 +129,9 @@ Vector3 findODTCenter(VertexPositionGeometry& geom, Face f, MutationManager& mm)
 }
 
 bool isDelaunay(VertexPositionGeometry& geom, Edge e) {
-  float angle1 = geom.cornerAngle(e.halfedge().next().next().corner());
-  float angle2 = geom.cornerAngle(e.halfedge().twin().next().next().corner());
-  return angle1 + angle2 <= PI;
+  double angle1 = geom.cornerAngle(e.halfedge().next().next().corner());
+  double angle2 = geom.cornerAngle(e.halfedge().twin().next().next().corner());
+  return angle1 + angle2 <= PI + 1e-6; // (tolerance: do not flip cocircular points back and forth)
 }
 
 inline double diamondAngle(Vector3 a, Vector3 b, Vector3 c, Vector3 d) // dihedral angle at edge a-b
-- 
2.43.0


From 426dbb439061a8e4f16702a9bb6bd5cae58fe079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 088/124] fix: smoothByCircumcenter() left the face areas
 required

---
 src/surface/remeshing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index a5f64b9..7dbb3a4 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -311,7 +311,6 @@ double smoothByCircumcenter(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& g
 
 double smoothByCircumcenter(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm,
                             double stepSize, RemeshBoundaryCondition bc) {
-  geom.requireFaceAreas();
   VertexData<Vector3> vertexOffsets(mesh);
   for (Vertex v : mesh.vertices()) {
     Vector3 updateDirection = Vector3::zero();
-- 
2.43.0


From f1c5cd861993df1b8e587fda62abc07bc06a6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 089/124] fix: adjustEdgeLengths() took a negative target
 length literally rather than relative to the mean

---
 src/surface/remeshing.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index 7dbb3a4..49a8566 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -363,6 +363,16 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
 
 bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm,
                        RemeshOptions options) {
+  if (options.targetEdgeLength < 0) {
+    double meanLength = 0;
+    for (Edge e : mesh.edges()) {
+      meanLength += geom.edgeLength(e);
+    }
+    meanLength /= mesh.nEdges();
+
+    options.targetEdgeLength = std::abs(options.targetEdgeLength * meanLength);
+  }
+
   geom.requireVertexDualAreas();
   geom.requireVertexMeanCurvatures();
 
-- 
2.43.0


From be84897e1e877c7e25a8454cda5f24f7305324a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 090/124] fix: quadricErrorSimplify() moved vertices of flat
 regions arbitrarily far away

---
 .../surface/quadric_error_simplification.h     |  2 +-
 src/surface/quadric_error_simplification.cpp   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/geometrycentral/surface/quadric_error_simplification.h b/include/geometrycentral/surface/quadric_error_simplification.h
index 4fda48c..a635396 100644
--- a/include/geometrycentral/surface/quadric_error_simplification.h
+++ b/include/geometrycentral/surface/quadric_error_simplification.h
@@ -16,7 +16,7 @@ public:
   Quadric(const Eigen::Matrix3d& A_, const Eigen::Vector3d& b_, double c_);
   Quadric(const Quadric& Q1, const Quadric& Q2);
   double cost(const Eigen::Vector3d& v);
-  Eigen::Vector3d optimalPoint();
+  Eigen::Vector3d optimalPoint(const Eigen::Vector3d& x0 = Eigen::Vector3d::Zero());
 
   Quadric operator+=(const Quadric& Q);
 
diff --git a/src/surface/quadric_error_simplification.cpp b/src/surface/quadric_error_simplification.cpp
index 690095a..8fa91fc 100644
--- a/src/surface/quadric_error_simplification.cpp
+++ b/src/surface/quadric_error_simplification.cpp
@@ -19,7 +19,13 @@ Quadric::Quadric(const Eigen::Matrix3d& A_, const Eigen::Vector3d& b_, double c_
 
 double Quadric::cost(const Eigen::Vector3d& v) { return v.dot(A * v) + 2 * b.dot(v) + c; }
 
-Eigen::Vector3d Quadric::optimalPoint() { return -A.colPivHouseholderQr().solve(b); }
+// The minimizer nearest to x0 (the error does not change along a flat region or straight crease)
+Eigen::Vector3d Quadric::optimalPoint(const Eigen::Vector3d& x0) {
+  Eigen::CompleteOrthogonalDecomposition<Eigen::Matrix3d> solver;
+  solver.setThreshold(1e-8);
+  solver.compute(A);
+  return x0 - solver.solve(A * x0 + b);
+}
 
 Quadric Quadric::operator+=(const Quadric& Q) {
   A += Q.A;
@@ -43,6 +49,10 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
     return ret;
   };
   auto fromEigen = [](Eigen::Vector3d v) -> Vector3 { return Vector3{v(0), v(1), v(2)}; };
+  auto midpoint = [&](Edge e) -> Eigen::Vector3d {
+    return toEigen(0.5 *
+                   (geo.vertexPositions[e.halfedge().tailVertex()] + geo.vertexPositions[e.halfedge().tipVertex()]));
+  };
 
   VertexData<Quadric> Q(mesh, Quadric());
 
@@ -67,7 +77,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
   for (Edge e : mesh.edges()) {
     Quadric Qe = Q[e.halfedge().tailVertex()] + Q[e.halfedge().tipVertex()];
-    Eigen::Vector3d q = Qe.optimalPoint();
+    Eigen::Vector3d q = Qe.optimalPoint(midpoint(e));
     double cost = Qe.cost(q);
     edgesToCheck.push(std::make_tuple(cost, e));
   }
@@ -89,7 +99,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
     // Get edge quadric
     Quadric Qe(Q[v1], Q[v2]);
-    Eigen::Vector3d q = Qe.optimalPoint();
+    Eigen::Vector3d q = Qe.optimalPoint(midpoint(e));
 
     // If either vertex has been collapsed since the edge was pushed
     // onto the queue, the old cost was wrong. In that case, give up
@@ -102,7 +112,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
     for (Edge f : v.adjacentEdges()) {
       Quadric Qf(Q[f.halfedge().tailVertex()], Q[f.halfedge().tipVertex()]);
-      Eigen::Vector3d q = Qf.optimalPoint();
+      Eigen::Vector3d q = Qf.optimalPoint(midpoint(f));
       double cost = Qf.cost(q);
       edgesToCheck.push(std::make_tuple(cost, f));
     }
-- 
2.43.0


From d3d22be52b5c304216c400de06f424d6ae39643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 091/124] fix: quadricErrorSimplify() left the face normals
 required

---
 src/surface/quadric_error_simplification.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/quadric_error_simplification.cpp b/src/surface/quadric_error_simplification.cpp
index 8fa91fc..0e5fe11 100644
--- a/src/surface/quadric_error_simplification.cpp
+++ b/src/surface/quadric_error_simplification.cpp
@@ -69,6 +69,8 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
     }
   }
 
+  geo.unrequireFaceNormals();
+
   using PotentialEdge = std::tuple<double, Edge>;
 
   auto cmp = [](const PotentialEdge& a, const PotentialEdge& b) -> bool { return std::get<0>(a) > std::get<0>(b); };
-- 
2.43.0


From 099e2a9c21c516c27552929acf333364d67771cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 092/124] fix: point cloud connection Laplacian did not
 conjugate its rotation between points with opposite normal orientations

---
 src/pointcloud/point_position_geometry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index aadd96f..b830e3e 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -351,7 +351,6 @@ std::tuple<Vector2, bool> PointPositionGeometry::transportBetweenOriented(Point
   bool inverted = false;
   if (dot(sourceN, targetN) < 0.) {
     targetN *= -1;
-    targetBasisY *= -1;
     inverted = true;
   }
 
-- 
2.43.0


From 380723a975d2134a5b421f324757d4285d4f1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 093/124] fix: adding a point to an empty point cloud doubled a
 capacity of zero and wrote out of bounds

---
 src/pointcloud/point_cloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..de9b84e 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -99,7 +99,7 @@ Point PointCloud::getNewPoint() {
   }
   // The intesting case, where vectors resize
   else {
-    size_t newCapacity = nPointsCapacityCount * 2;
+    size_t newCapacity = std::max<size_t>(1, nPointsCapacityCount * 2);
 
     // Resize internal arrays
     pointValid.resize(newCapacity);
-- 
2.43.0


From 169f4f4ae85b19758b07610039d1513438ab740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 094/124] fix: a deleted point cloud did not notify its data
 containers, whose destructors then accessed it

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index de9b84e..c87500b 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From 93a362fe2e622eda126e1ac8f3abe6ffde1bd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 095/124] fix: point cloud signed distance overwrote instead of
 accumulating the normals of consecutive curve segments

---
 src/pointcloud/point_cloud_heat_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index 60a1c9b..f5d6798 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -298,8 +298,8 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
       size_t vIdxA = geom.pointIndices[vA];
       size_t vIdxB = geom.pointIndices[vB];
       for (int j = 0; j < 2; j++) {
-        X0[2 * vIdxA + j] = curveNormalA[j];
-        X0[2 * vIdxB + j] = curveNormalB[j];
+        X0[2 * vIdxA + j] += curveNormalA[j];
+        X0[2 * vIdxB + j] += curveNormalB[j];
       }
       if (options.preserveSourceNormals) {
         if (curveIndices[vA] < 0) {
-- 
2.43.0


From 505dcba13f1f98ad5148c7fba7d23ed1743dd905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 096/124] fix: point cloud signed distance with a soft zero set
 did not constrain the first point of each curve

---
 src/pointcloud/point_cloud_heat_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index f5d6798..b3c9752 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -429,7 +429,7 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
         size_t nNodes = curve.size();
         bool isClosed = (curve[0] == curve[nNodes - 1]);
         size_t uB = isClosed ? nNodes - 1 : nNodes;
-        for (size_t i = 1; i < uB; i++) {
+        for (size_t i = 0; i < uB; i++) {
           triplets.emplace_back(m, geom.pointIndices[curve[i]], 1);
           m++;
         }
-- 
2.43.0


From 82d4e7a13892bfe475575c915d40d9cc32a7f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 097/124] fix: point cloud signed distance with level set
 constraints solved singular systems (NaN)

---
 src/pointcloud/point_cloud_heat_solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index b3c9752..19dc8e8 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -443,7 +443,8 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
   }
   case (LevelSetConstraint::Multiple): {
     geom.tuftedGeom->requireCotanLaplacian();
-    SparseMatrix<double>& L = geom.tuftedGeom->cotanLaplacian;
+    // (the solution is only determined up to a constant; shift slightly so that the system is always solvable)
+    SparseMatrix<double> L = geom.tuftedGeom->cotanLaplacian + 1e-8 * identityMatrix<double>(N);
     geom.tuftedGeom->unrequireCotanLaplacian();
 
     std::vector<Eigen::Triplet<double>> triplets;
@@ -463,7 +464,7 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
     A.resize(m, N);
     A.setFromTriplets(triplets.begin(), triplets.end());
     if (options.softLevelSetWeight < 0) {
-      SparseMatrix<double> Z(m, m);
+      SparseMatrix<double> Z = -1e-8 * identityMatrix<double>(m);
       SparseMatrix<double> LHS1 = horizontalStack<double>({L, A.transpose()});
       SparseMatrix<double> LHS2 = horizontalStack<double>({A, Z});
       SparseMatrix<double> LHS = verticalStack<double>({LHS1, LHS2});
-- 
2.43.0


From 5b9a033dd71e544ca482c63199586f4277bf6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 098/124] fix: point cloud normals read out of bounds with
 fewer than three neighbors

---
 src/pointcloud/point_position_geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index b830e3e..0629eaf 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -87,7 +87,7 @@ void PointPositionGeometry::computeNormals() {
     }
 
     // Smallest singular vector is best normal
-    Eigen::JacobiSVD<Eigen::MatrixXd> svd(localMat, Eigen::ComputeThinU);
+    Eigen::JacobiSVD<Eigen::MatrixXd> svd(localMat, Eigen::ComputeFullU);
     Eigen::Vector3d bestNormal = svd.matrixU().col(2);
 
     Vector3 N{bestNormal(0), bestNormal(1), bestNormal(2)};
-- 
2.43.0


From f3e68c72495ce8863ba7378ce6846af99d17baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 099/124] fix: SimplePolygonMesh::triangulate() left the
 texture coordinates of the polygons it replaced

---
 src/surface/simple_polygon_mesh.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 111b7eb..5d1e930 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -634,8 +634,10 @@ void SimplePolygonMesh::stripDuplicateFaces() {
 
 void SimplePolygonMesh::triangulate() {
   std::vector<std::vector<size_t>> newPolygons;
+  std::vector<std::vector<Vector2>> newParamCoordinates;
 
-  for (auto poly : polygons) {
+  for (size_t iF = 0; iF < nFaces(); iF++) {
+    const std::vector<size_t>& poly = polygons[iF];
     if (poly.size() <= 2) {
       throw std::runtime_error("ERROR: SimplePolygonMesh has degree < 3 polygon");
     }
@@ -643,10 +645,18 @@ void SimplePolygonMesh::triangulate() {
     for (size_t i = 2; i < poly.size(); i++) {
       std::vector<size_t> tri = {poly[0], poly[i - 1], poly[i]};
       newPolygons.push_back(tri);
+      if (hasParameterization()) {
+        const std::vector<Vector2>& coords = paramCoordinates[iF];
+        newParamCoordinates.emplace_back();
+        if (coords.size() == poly.size()) {
+          newParamCoordinates.back() = {coords[0], coords[i - 1], coords[i]};
+        }
+      }
     }
   }
 
   polygons = newPolygons;
+  paramCoordinates = newParamCoordinates;
 }
 
 void SimplePolygonMesh::consistentlyOrientFaces(bool outwardOrient) {
-- 
2.43.0


From a3030e9688960dd1fc69dbd7e06064403a6138cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 100/124] fix: OBJ files with no texture coordinates, or with
 some faces without, were read with coordinates which do not correspond to the
 faces

---
 src/surface/simple_polygon_mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 5d1e930..322f4ce 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -80,7 +80,7 @@ public:
 Index parseFaceIndex(const std::string& token) {
   std::stringstream in(token);
   std::string indexString;
-  int indices[3] = {1, 1, 1};
+  int indices[3] = {0, 0, 0}; // an index which is not present comes out as -1
 
   int i = 0;
   while (std::getline(in, indexString, '/')) {
@@ -169,7 +169,8 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
 
   // corner UV coords, unpacked below
   std::vector<Vector2> coords;
-  std::vector<std::vector<size_t>> polygonCoordInds;
+  std::vector<std::vector<size_t>> polygonCoordInds; // one entry per polygon, empty if it has no coordinates
+  bool anyFaceHasCoords = false;
 
   // parse obj format
   std::string line;
@@ -213,14 +214,13 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
       }
 
       polygons.push_back(face);
-      if (!faceCoordInds.empty()) {
-        polygonCoordInds.push_back(faceCoordInds);
-      }
+      anyFaceHasCoords = anyFaceHasCoords || !faceCoordInds.empty();
+      polygonCoordInds.push_back(faceCoordInds);
     }
   }
 
   // If we got uv coords, unpack them in to per-corner values
-  if (!polygonCoordInds.empty()) {
+  if (anyFaceHasCoords) {
     for (std::vector<size_t>& faceCoordInd : polygonCoordInds) {
       paramCoordinates.emplace_back();
       std::vector<Vector2>& faceCoord = paramCoordinates.back();
-- 
2.43.0


From 5b0bce7d31b69120fdc233f181559d7b114862f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 101/124] fix: OBJ faces with relative indices or continued
 over several lines were read wrongly

---
 src/surface/simple_polygon_mesh.cpp | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 322f4ce..d5779a2 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -77,19 +77,21 @@ public:
   long long int normal = -1;
 };
 
-Index parseFaceIndex(const std::string& token) {
+Index parseFaceIndex(const std::string& token, size_t nPositions, size_t nCoords) {
   std::stringstream in(token);
   std::string indexString;
   int indices[3] = {0, 0, 0}; // an index which is not present comes out as -1
 
   int i = 0;
-  while (std::getline(in, indexString, '/')) {
-    if (indexString != "\\") {
-      std::stringstream ss(indexString);
-      ss >> indices[i++];
-    }
+  while (i < 3 && std::getline(in, indexString, '/')) {
+    std::stringstream ss(indexString);
+    ss >> indices[i++];
   }
 
+  // negative indices are relative, counting back from the most recent entry
+  if (indices[0] < 0) indices[0] += nPositions + 1;
+  if (indices[1] < 0) indices[1] += nCoords + 1;
+
   // decrement since indices in OBJ files are 1-based
   return Index(indices[0] - 1, indices[1] - 1, indices[2] - 1);
 }
@@ -175,6 +177,15 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
   // parse obj format
   std::string line;
   while (getline(in, line)) {
+
+    // A backslash at the end of a line (other than a comment) continues it on the next one
+    std::string nextLine;
+    size_t iLast = line.find_last_not_of("\t\n\v\f\r ");
+    while (iLast != std::string::npos && line[iLast] == '\\' && line[0] != '#' && getline(in, nextLine)) {
+      line = line.substr(0, iLast) + " " + nextLine;
+      iLast = line.find_last_not_of("\t\n\v\f\r ");
+    }
+
     std::stringstream ss(line);
     std::string token;
 
@@ -199,13 +210,7 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
       std::vector<size_t> face;
       std::vector<size_t> faceCoordInds;
       while (ss >> token) {
-        Index index = parseFaceIndex(token);
-        if (index.position < 0) {
-          getline(in, line);
-          size_t i = line.find_first_not_of("\t\n\v\f\r ");
-          index = parseFaceIndex(line.substr(i));
-        }
-
+        Index index = parseFaceIndex(token, vertexCoordinates.size(), coords.size());
         face.push_back(index.position);
 
         if (index.uv != -1) {
-- 
2.43.0


From 4bdfe4bc2e233774c70b3e7ec3d78ed9f78b6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 102/124] fix: WavefrontOBJ::write() with texture coordinates
 and normals did not write the texture coordinates its faces refer to

---
 src/surface/meshio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/meshio.cpp b/src/surface/meshio.cpp
index f1ff8f8..88fe611 100644
--- a/src/surface/meshio.cpp
+++ b/src/surface/meshio.cpp
@@ -238,6 +238,7 @@ bool WavefrontOBJ::write(std::string filename, EmbeddedGeometryInterface& geomet
   cout << endl;
 
   writeVertices(out, geometry);
+  writeTexCoords(out, geometry, texCoords);
   writeNormals(out, geometry, normals);
 
   bool useTexCoords = true;
-- 
2.43.0


From 1de64a50a66ac3eb0409bcd40658cc6a57143c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 103/124] fix: RichSurfaceMeshData wrote boundary faces with
 indices which are wrong in the mesh read back, unless the face array had no
 unused capacity

---
 src/surface/rich_surface_mesh_data.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/surface/rich_surface_mesh_data.cpp b/src/surface/rich_surface_mesh_data.cpp
index 50c8659..94efedd 100644
--- a/src/surface/rich_surface_mesh_data.cpp
+++ b/src/surface/rich_surface_mesh_data.cpp
@@ -151,9 +151,16 @@ void RichSurfaceMeshData::addMeshConnectivity() {
   auto& elemFace = plyData.getElement("gc_internal_face");
   auto& elemBl= plyData.getElement("gc_internal_bl");
 
+  // The face array is written without its unused middle part, which moves the boundary loops at the end of it
+  std::vector<size_t> heFaceArr(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount);
+  size_t nFacesWritten = mesh->nFacesFillCount + mesh->nBoundaryLoopsFillCount;
+  for (size_t& iF : heFaceArr) {
+    if (iF != INVALID_IND && iF >= mesh->nFacesFillCount) iF -= mesh->fHalfedgeArr.size() - nFacesWritten;
+  }
+
   // Halfedge properties
   elemHalfedge.addProperty<uint32_t>("gc_internal_heNextArr", toSmallerVec(mesh->heNextArr.begin(), mesh->heNextArr.begin() + mesh->nHalfedgesFillCount));
-  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount));
+  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(heFaceArr.begin(), heFaceArr.end()));
   elemHalfedge.addProperty<uint32_t>("gc_internal_heVertexArr", toSmallerVec(mesh->heVertexArr.begin(), mesh->heVertexArr.begin() + mesh->nHalfedgesFillCount));
   if(!mesh->usesImplicitTwin()) {
     elemHalfedge.addProperty<uint32_t>("gc_internal_heSiblingArr", toSmallerVec(mesh->heSiblingArr.begin(), mesh->heSiblingArr.begin() + mesh->nHalfedgesFillCount));
-- 
2.43.0


From 32ebd5ef1d50347290ac55c9bbd7da1a35524071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 104/124] fix: BFF::flattenFromExteriorAngles() factored the
 singular Laplacian rather than the regularized one, and failed on many disks

---
 src/surface/boundary_first_flattening.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index d479c91..79e73f6 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -29,10 +29,6 @@ BFF::BFF(ManifoldSurfaceMesh& mesh_, IntrinsicGeometryInterface& geo_) : mesh(me
   iIdx = VertexData<int>(mesh, -1);
   bIdx = VertexData<int>(mesh, -1);
 
-  geo.requireCotanLaplacian();
-
-  L = geo.cotanLaplacian;
-
   isInterior = Vector<bool>(mesh.nVertices());
   size_t iB = 0, iI = 0;
   for (Vertex v : mesh.vertices()) {
@@ -49,7 +45,7 @@ BFF::BFF(ManifoldSurfaceMesh& mesh_, IntrinsicGeometryInterface& geo_) : mesh(me
   nBoundary = nVertices - nInterior;
 
   geo.requireCotanLaplacian();
-  SparseMatrix<double> L = geo.cotanLaplacian;
+  L = geo.cotanLaplacian;
   shiftDiagonal(L, 1e-12);
 
   Ldecomp = blockDecomposeSquare(L, isInterior);
-- 
2.43.0


From 7396051de3dc7ec0606f6bd8cd036ee87ffc6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 105/124] fix: BFF::dirichletToNeumann() used the boundary
 scale factors with the wrong sign

---
 src/surface/boundary_first_flattening.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index 79e73f6..a5e063c 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -125,7 +125,7 @@ VertexData<Vector2> BFF::flattenFromBoth(const Vector<double>& uBdy, const Vecto
 }
 
 Vector<double> BFF::dirichletToNeumann(const Vector<double>& uBdy) {
-  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai - Lib * uBdy)) - Lbb * uBdy;
+  return Omegab - (Lib.transpose() * Liisolver->solve(Vector<double>(Omegai + Lib * uBdy))) + Lbb * uBdy;
 }
 
 Vector<double> BFF::neumannToDirichlet(const Vector<double>& kBdy) {
-- 
2.43.0


From b862ce713fafc075e6d09cce3276f411cc8d360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 106/124] fix: uniformizeDisk() misread the boundary of meshes
 with deleted vertices

---
 src/surface/uniformize.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/uniformize.cpp b/src/surface/uniformize.cpp
index 8885d3e..a5a1d94 100644
--- a/src/surface/uniformize.cpp
+++ b/src/surface/uniformize.cpp
@@ -38,11 +38,13 @@ EdgeData<double> uniformizeDisk(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInte
   size_t N = mesh.nVertices();
   size_t N_b = 0;
   Vector<bool> isInterior(N);
-  for (size_t i = 0; i < N; i++) {
-    isInterior(i) = !mesh.vertex(i).isBoundary();
-    if (!isInterior(i)) {
+  size_t iVert = 0;
+  for (Vertex v : mesh.vertices()) {
+    isInterior(iVert) = !v.isBoundary();
+    if (!isInterior(iVert)) {
       N_b++;
     }
+    iVert++;
   }
 
 
-- 
2.43.0


From 6e473fd4c8c075c1e20d1591d9d3ebe33623e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 107/124] fix: parameterizeDisk() started from halfedge 0 even
 if it has been deleted

---
 src/surface/parameterize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/parameterize.cpp b/src/surface/parameterize.cpp
index 04c86ec..c21ab9d 100644
--- a/src/surface/parameterize.cpp
+++ b/src/surface/parameterize.cpp
@@ -63,7 +63,7 @@ VertexData<Vector2> parameterizeDisk(ManifoldSurfaceMesh& origMesh, IntrinsicGeo
   };
 
   // initialize the layout
-  Halfedge he0 = mesh.halfedge(0);
+  Halfedge he0 = (*mesh.faces().begin()).halfedge();
   Vertex v0 = he0.vertex();
   Vertex v1 = he0.twin().vertex();
   coords[v0] = Vector2{0., 0.};
-- 
2.43.0


From 302a365d17e42a9d5f7217cccc3e998d6670ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 108/124] fix: boundary aligned direction fields do not
 multiply the boundary terms by a mass matrix, whose entries mix vectors of
 different tangent spaces

---
 src/surface/direction_fields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index be79ff7..76a85a0 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -149,12 +149,8 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireVertexGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInVertex();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
 
@@ -204,7 +200,7 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a VertexData vector for both the boundary and interior
@@ -229,12 +225,8 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireFaceGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInFace();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.faceGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeFaceConnectionLaplacian(geometry, nSym);
 
@@ -287,7 +279,7 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a FaceData object
-- 
2.43.0


From d98f4ea1be68e4bea35bc2616cbd268661c22aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 109/124] fix: the index of a face counts the rotation along
 its boundary edges too

---
 src/surface/direction_fields.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index 76a85a0..20b4110 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -416,19 +416,17 @@ FaceData<int> computeFaceIndex(IntrinsicGeometryInterface& geometry, const Verte
     double totalRot = geometry.faceGaussianCurvatures[f] * nSym;
 
     for (Halfedge he : f.adjacentHalfedges()) {
-      if (he.twin().isInterior()) {
-        // Compute the rotation along the halfedge implied by the field
-        Vector2 x0 = directionField[he.vertex()];
-        Vector2 x1 = directionField[he.twin().vertex()];
-        Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
+      // Compute the rotation along the halfedge implied by the field
+      Vector2 x0 = directionField[he.vertex()];
+      Vector2 x1 = directionField[he.twin().vertex()];
+      Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
 
-        // Find the difference in angle
-        double theta0 = (rot * x0).arg();
-        double theta1 = x1.arg();
-        double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
+      // Find the difference in angle
+      double theta0 = (rot * x0).arg();
+      double theta1 = x1.arg();
+      double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
 
-        totalRot += deltaTheta; // accumulate
-      }
+      totalRot += deltaTheta; // accumulate
     }
 
     // Compute the net rotation and corresponding index
-- 
2.43.0


From 722ee50a8587447214ec5d627aacb2cfd1ebae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 110/124] fix: PoissonDiskSampler missed samples which are
 closer than the minimum distance but two buckets away

---
 src/surface/poisson_disk_sampler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index afb70cd..2add64a 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -171,11 +171,11 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
   SpatialKey queryKey = positionKey(queryPoint);
 
-  // Check all adjacent buckets. Each bucket's sidelength is chosen to be small enough such that if any two adjacent
-  // buckets contain points, their points are guaranteed to be within r of each other.
-  for (int offsetX = -1; offsetX <= 1; offsetX++) {
-    for (int offsetY = -1; offsetY <= 1; offsetY++) {
-      for (int offsetZ = -1; offsetZ <= 1; offsetZ++) {
+  // Check all nearby buckets. Each bucket has sidelength r/sqrt(3), so points within r of each other are at most two
+  // buckets apart along each axis.
+  for (int offsetX = -2; offsetX <= 2; offsetX++) {
+    for (int offsetY = -2; offsetY <= 2; offsetY++) {
+      for (int offsetZ = -2; offsetZ <= 2; offsetZ++) {
 
         SpatialKey bucketKey = queryKey;
         bucketKey[0] += offsetX;
-- 
2.43.0


From 110efe050c5aee518e4111b7d79a1cfeeb19d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 111/124] fix: PoissonDiskSampler left gaps in the balls to
 avoid, depending on the scale of the mesh

---
 .../surface/poisson_disk_sampler.h            |  3 +++
 src/surface/poisson_disk_sampler.cpp          | 25 +++++++------------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/geometrycentral/surface/poisson_disk_sampler.h b/include/geometrycentral/surface/poisson_disk_sampler.h
index 2d34c82..9fc6e21 100644
--- a/include/geometrycentral/surface/poisson_disk_sampler.h
+++ b/include/geometrycentral/surface/poisson_disk_sampler.h
@@ -48,6 +48,9 @@ private:
   std::map<SpatialKey, Vector3> spatialBuckets;
   Vector3 mapCenter;
 
+  // Solid balls (center, radius) in which there should be no samples
+  std::vector<std::pair<Vector3, double>> avoidedBalls;
+
   // ===== Utility and auxiliary functions
   std::tuple<Vector3, Vector3> boundingBox();
   void storeFaceFromEachComponent();
diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index 2add64a..b6aafff 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -143,22 +143,8 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
       r += rMinDist;
     }
   } else {
-    // This places fictitious points in a *solid 3D ball* approximately of radius R*r centered at <newPoint>.
-    // The solid ball is built by constructing R layers, radially outward; each layer is spaced r apart, and
-    // points in each layer are spaced approx. r apart in a "grid" (a mapping from the cylinder to the sphere that has
-    // been scaled s.t. projected points end up being approx. r apart.)
-    double r = rMinDist;
-    while (r < radius) {
-      for (double z = -0.99; z <= 0.99; z += rMinDist) {
-        double coeff = std::sqrt(1. - z * z);
-        for (double theta = 0.0; theta <= 2.0 * PI; theta += rMinDist / coeff) {
-          Vector3 pos = {r * coeff * std::cos(theta), r * coeff * std::sin(theta), r * z};
-          pos += newPos;
-          addPointToSpatialLookup(pos);
-        }
-      }
-      r += rMinDist;
-    }
+    // Exclude the *solid 3D ball* of the given radius centered at <newPoint>.
+    avoidedBalls.push_back(std::make_pair(newPos, radius));
   }
 }
 
@@ -171,6 +157,12 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
   SpatialKey queryKey = positionKey(queryPoint);
 
+  for (const std::pair<Vector3, double>& ball : avoidedBalls) {
+    if ((queryPoint - ball.first).norm() < ball.second) {
+      return false;
+    }
+  }
+
   // Check all nearby buckets. Each bucket has sidelength r/sqrt(3), so points within r of each other are at most two
   // buckets apart along each axis.
   for (int offsetX = -2; offsetX <= 2; offsetX++) {
@@ -242,6 +234,7 @@ void PoissonDiskSampler::clearData() {
 
   samples.clear();
   spatialBuckets.clear();
+  avoidedBalls.clear();
 }
 
 /*
-- 
2.43.0


From 1cc018813b1144a74d8cdf712137b243db4d80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 112/124] fix: PoissonDiskSampler placed the first sample of
 each component without regard to other samples and points to avoid

---
 src/surface/poisson_disk_sampler.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index b6aafff..ecf76f5 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -191,11 +191,24 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
  */
 void PoissonDiskSampler::sampleOnConnectedComponent(const Face& f) {
 
-  // Get initial sample.
+  // Get initial sample: the barycenter of the first face of the component, in breadth-first order, where a sample is
+  // allowed (there may already be samples nearby, or points to avoid).
   Vector3 baryCoords = {1. / 3., 1. / 3., 1. / 3.};
-  SurfacePoint x0(f, baryCoords);
   activeList.clear();
-  addNewSample(x0);
+  FaceData<char> marked(mesh, false);
+  std::vector<Face> queue = {f};
+  marked[f] = true;
+  for (size_t i = 0; i < queue.size() && activeList.empty(); i++) {
+    Face currF = queue[i];
+    SurfacePoint x0(currF, baryCoords);
+    if (isCandidateValid(x0)) addNewSample(x0);
+
+    for (Face g : currF.adjacentFaces()) {
+      if (marked[g]) continue;
+      marked[g] = true;
+      queue.push_back(g);
+    }
+  }
 
   while (activeList.size() > 0) {
     // Select a random point from the active list.
-- 
2.43.0


From 54ab37879a6cf2b5e47905a3a3ff435dcd04b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:33 +0000
Subject: [PATCH 113/124] fix: flip geodesics: the angle where a closed loop
 starts was never straightened

---
 src/surface/flip_geodesics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index a9abbcb..b9ad553 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -67,6 +67,9 @@ FlipEdgePath::FlipEdgePath(FlipEdgeNetwork& network_, std::vector<Halfedge> half
     std::get<1>(pathHeInfo[firstID]) = lastID;
     std::get<2>(pathHeInfo[lastID]) = firstID;
 
+    // Now that the loop is connected, also consider the wedge where it closes
+    network.addToWedgeAngleQueue({this, firstID});
+
   } else {
 
     // Set marked vertex flags for endpoints
-- 
2.43.0


From 59bc63773d5013dc3511d5e0bdc67f525dcb240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 114/124] fix: flip geodesics: shortening never ended for loops
 which contract to an edge or around a single vertex

---
 src/surface/flip_geodesics.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index b9ad553..3a3dad0 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -836,9 +836,9 @@ void FlipEdgeNetwork::locallyShortenAt(FlipPathSegment& pathSegment, SegmentAngl
     }
   }
 
-  // Make sure the new path is actually shorter (this would never happen in the Reals, but can rarely happen if an edge
-  // is numerically unflippable for floating point reasons)
-  if (newPathLength > initPathLength) return;
+  // Make sure the new path is actually shorter (this can rarely fail to happen if an edge is numerically unflippable for
+  // floating point reasons, or if a contractible loop has shrunk to a single edge traversed back and forth)
+  if (newPathLength >= initPathLength) return;
 
 
   // Make sure the new path orientation matches the orientation of the input edges
@@ -866,6 +866,13 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
   std::tie(he, UNUSED1, UNUSED2) = edgePath.pathHeInfo[id];
 
 
+  // If the two opposite edges of the triangle are the same edge, the loop encircles just a single vertex and cannot be
+  // shortened any further
+  {
+    Halfedge heSide = (angleType == SegmentAngleType::RightTurn) ? he.twin() : he;
+    if (heSide.next().edge() == heSide.next().next().edge()) return;
+  }
+
   // == Replace the old segment with the two opposite edges of the triangle
 
   switch (angleType) {
-- 
2.43.0


From 03899433058e3b41a295c0fc2ad7dc7885c6307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 115/124] fix: flip geodesics: the wider side of an angle was
 never straightened when the narrow side is blocked

---
 src/surface/flip_geodesics.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 3a3dad0..6fd68e8 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -949,7 +949,14 @@ void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeL
     if (path.pathHeInfo.find(pathSegment.id) == path.pathHeInfo.end()) {
       continue; // segment no longer exists
     }
-    double currAngle = minWedgeAngle(pathSegment);
+    SegmentID prevID = std::get<1>(path.pathHeInfo[pathSegment.id]);
+    if (prevID == INVALID_IND) {
+      continue; // segment is now the first in an open path
+    }
+    double leftAngle, rightAngle;
+    std::tie(leftAngle, rightAngle) =
+        measureSideAngles(std::get<0>(path.pathHeInfo[prevID]), std::get<0>(path.pathHeInfo[pathSegment.id]));
+    double currAngle = angleType == SegmentAngleType::LeftTurn ? leftAngle : rightAngle;
     if (currAngle != minAngle) {
       continue; // angle has changed
     }
-- 
2.43.0


From 71ddd241d904c93b115c6282378fd54ed05213e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 116/124] fix: flip geodesics: paths which run out and back
 along an edge were left that way

---
 .../geometrycentral/surface/flip_geodesics.h  |  2 +
 src/surface/flip_geodesics.cpp                | 52 +++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/include/geometrycentral/surface/flip_geodesics.h b/include/geometrycentral/surface/flip_geodesics.h
index 04de0ae..7c51498 100644
--- a/include/geometrycentral/surface/flip_geodesics.h
+++ b/include/geometrycentral/surface/flip_geodesics.h
@@ -248,6 +248,8 @@ public:
   // === Helpers
   void updatePathAfterEdgeSplit(Halfedge origHe, Halfedge newHeFront);
   void processSingleEdgeLoop(FlipPathSegment& pathSegment, SegmentAngleType angleType);
+  bool isSpur(const FlipPathSegment& pathSegmentNext); // does the path immediately return along the preceding edge?
+  bool removeSpur(const FlipPathSegment& pathSegmentNext); // returns false if another path is in the way
   void purgeStaleQueueEntries(); // stop too many stale entries from accumulating
 };
 
diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 6fd68e8..ebaa8ef 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -4,6 +4,8 @@
 
 #include "happly.h"
 
+#include <algorithm>
+
 namespace geometrycentral {
 namespace surface {
 
@@ -926,6 +928,46 @@ void FlipEdgeNetwork::processSingleEdgeLoop(FlipPathSegment& pathSegment, Segmen
   }
 }
 
+bool FlipEdgeNetwork::isSpur(const FlipPathSegment& pathSegment) {
+  FlipEdgePath& edgePath = *pathSegment.path;
+  SegmentID prevID = std::get<1>(edgePath.pathHeInfo[pathSegment.id]);
+  if (prevID == INVALID_IND) return false;
+  return std::get<0>(edgePath.pathHeInfo[pathSegment.id]) == std::get<0>(edgePath.pathHeInfo[prevID]).twin();
+}
+
+bool FlipEdgeNetwork::removeSpur(const FlipPathSegment& pathSegment) {
+
+  // Gather values
+  FlipEdgePath& edgePath = *pathSegment.path;
+  SegmentID nextID = pathSegment.id;
+  SegmentID prevID, nextNextID, prevPrevID, UNUSED;
+  Halfedge heNext;
+  std::tie(heNext, prevID, nextNextID) = edgePath.pathHeInfo[nextID];
+  prevPrevID = std::get<1>(edgePath.pathHeInfo[prevID]);
+  if (prevPrevID == nextID || (prevPrevID == INVALID_IND && nextNextID == INVALID_IND)) return false; // nothing else left
+  if (!straightenAroundMarkedVertices && isMarkedVertex[heNext.vertex()]) return false;
+
+  // The two segments must be adjacent along the edge
+  std::deque<FlipPathSegment>& edgeSegments = pathsAtEdge[heNext.edge()];
+  auto itA = std::find(edgeSegments.begin(), edgeSegments.end(), FlipPathSegment{&edgePath, prevID});
+  auto itB = std::find(edgeSegments.begin(), edgeSegments.end(), FlipPathSegment{&edgePath, nextID});
+  if (itB < itA) std::swap(itA, itB);
+  if (itB - itA != 1) return false;
+
+  // Remove both, and connect the path
+  nShortenIters++;
+  edgeSegments.erase(itA, itB + 1);
+  edgePath.pathHeInfo.erase(prevID);
+  edgePath.pathHeInfo.erase(nextID);
+  if (prevPrevID != INVALID_IND) std::get<2>(edgePath.pathHeInfo[prevPrevID]) = nextNextID;
+  if (nextNextID != INVALID_IND) std::get<1>(edgePath.pathHeInfo[nextNextID]) = prevPrevID;
+
+  // Any wedge at either end of the edge may have become unblocked
+  addAllWedgesToAngleQueue();
+
+  return true;
+}
+
 void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeLengthDecrease) {
 
   bool checkLength = maxRelativeLengthDecrease != 0;
@@ -953,6 +995,10 @@ void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeL
     if (prevID == INVALID_IND) {
       continue; // segment is now the first in an open path
     }
+    if (isSpur(pathSegment)) {
+      if (angleType == SegmentAngleType::Shortest && removeSpur(pathSegment)) nIterations++;
+      continue;
+    }
     double leftAngle, rightAngle;
     std::tie(leftAngle, rightAngle) =
         measureSideAngles(std::get<0>(path.pathHeInfo[prevID]), std::get<0>(path.pathHeInfo[pathSegment.id]));
@@ -1012,6 +1058,12 @@ void FlipEdgeNetwork::addToWedgeAngleQueue(const FlipPathSegment& pathSegment) {
   }
   Halfedge hePrev = std::get<0>(edgePath.pathHeInfo[prevID]);
 
+  // The path runs out and back along the same edge, which is not an angle that flips could straighten
+  if (isSpur(pathSegment)) {
+    wedgeAngleQueue.emplace(0., SegmentAngleType::Shortest, pathSegment);
+    return;
+  }
+
   // Measure the angles on both sides
   ShortestReturnBoth testResult = locallyShortestTestWithBoth(hePrev, heNext);
 
-- 
2.43.0


From 5a80b0acaabf677848337101fc860f711286803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 117/124] fix: flip geodesics: updatePathAfterEdgeSplit left
 the segment after the split one out of the queue, so Bezier curves kept
 unstraightened joints

---
 src/surface/flip_geodesics.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index ebaa8ef..c0837e6 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -1874,6 +1874,9 @@ void FlipEdgeNetwork::updatePathAfterEdgeSplit(Halfedge origHe, Halfedge newHeFr
   // NOTE: shouldn't need to add to wedge angle queue for straightening, the newly created wedge is straight, since
   // it's a subdivided (geodesic) edge, but do so anyway to think less about numerics
   addToWedgeAngleQueue(newSeg);
+  if (nextID != INVALID_IND) {
+    addToWedgeAngleQueue(FlipPathSegment{path, nextID}); // as above, the incoming angle may have changed
+  }
 
   // validate();
 }
-- 
2.43.0


From 381c09409cfec49b1e722bed52d0f71cd17d7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 118/124] fix: flip geodesics: constructFromEdgeSet ignored the
 extra marked vertices it was given

---
 src/surface/flip_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index c0837e6..6857f43 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -397,7 +397,7 @@ std::unique_ptr<FlipEdgeNetwork> FlipEdgeNetwork::constructFromEdgeSet(ManifoldS
     } while (heCurr != heStart);
   }
 
-  return std::unique_ptr<FlipEdgeNetwork>(new FlipEdgeNetwork(mesh_, geom, allHalfedges));
+  return std::unique_ptr<FlipEdgeNetwork>(new FlipEdgeNetwork(mesh_, geom, allHalfedges, extraMarkedVertices));
 }
 
 
-- 
2.43.0


From cc7ced00a9ec2972b43bf1806469f314661e556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 119/124] fix: flip geodesics: minAngleIsotopy skipped the
 wedges next to marked vertices rather than those at them

---
 src/surface/flip_geodesics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 6857f43..19923b4 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -482,7 +482,7 @@ double FlipEdgeNetwork::minAngleIsotopy() {
       }
 
       // Skip if the vertex is marked and not straightening
-      if (!straightenAroundMarkedVertices && isMarkedVertex[currHe.twin().vertex()]) continue;
+      if (!straightenAroundMarkedVertices && isMarkedVertex[currHe.vertex()]) continue;
 
       minAngle = std::fmin(minAngle, result.minAngle);
     }
-- 
2.43.0


From 4f3a7fe49529372ceecf20c231b0c8f93c154b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 120/124] fix: flip geodesics: stop at the length limit after
 removing a spur too

---
 src/surface/flip_geodesics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/flip_geodesics.cpp b/src/surface/flip_geodesics.cpp
index 19923b4..00f94cd 100644
--- a/src/surface/flip_geodesics.cpp
+++ b/src/surface/flip_geodesics.cpp
@@ -996,7 +996,10 @@ void FlipEdgeNetwork::iterativeShorten(size_t maxIterations, double maxRelativeL
       continue; // segment is now the first in an open path
     }
     if (isSpur(pathSegment)) {
-      if (angleType == SegmentAngleType::Shortest && removeSpur(pathSegment)) nIterations++;
+      if (angleType == SegmentAngleType::Shortest && removeSpur(pathSegment)) {
+        nIterations++;
+        if (checkLength && length() < initLength * maxRelativeLengthDecrease) break;
+      }
       continue;
     }
     double leftAngle, rightAngle;
-- 
2.43.0


From 44f21271e34c60ee617904dff0bee0c38b15be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 121/124] fix: stripe patterns: connecting isolines must leave
 out the singularities of the direction field, where the values along the two
 sides of an edge differ

---
 src/surface/stripe_patterns.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 6bc2fbc..5dca5de 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -458,7 +458,8 @@ void connectIsolinesOnSingularities(EmbeddedGeometryInterface& geometry, const C
   geometry.requireFaceIndices();
 
   for (Face f : mesh.faces()) {
-    if (stripeIndices[f] != 0) {
+    // (at singularities of the direction field, the values have no consistent sign)
+    if (stripeIndices[f] != 0 && branchIndices[f] == 0) {
       std::vector<std::vector<Vector3>> facePoints;
       std::vector<std::vector<size_t>> faceIndices;
       for (Halfedge he : f.adjacentHalfedges()) {
-- 
2.43.0


From 913a5638ed00f52ae720be906637a2623160776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 122/124] fix: stripe patterns: removing the crossings of a
 singular face could leave points that cannot be matched up

---
 src/surface/stripe_patterns.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 5dca5de..f8f8fee 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -5,6 +5,8 @@
 
 #include <Eigen/Sparse>
 
+#include <algorithm>
+
 
 using namespace geometrycentral;
 using namespace geometrycentral::surface;
@@ -392,33 +394,25 @@ std::vector<std::vector<size_t>> removeCrossings(std::vector<std::pair<double, s
   for (int i = 0; i < 3; ++i) removed[i] = std::vector<bool>(faceIndices[i].size(), false);
 
   assert(faceIndices.size() == 3);
-  size_t idxIJ = 0;
-  if (faceIndices[1].size() >= faceIndices[2].size() && faceIndices[1].size() >= faceIndices[0].size()) {
-    idxIJ = 1;
-  } else if (faceIndices[2].size() >= faceIndices[1].size() && faceIndices[2].size() >= faceIndices[0].size()) {
-    idxIJ = 2;
-  }
+  std::array<int, 3> nRemaining;
+  for (size_t k = 0; k < 3; ++k) nRemaining[k] = faceIndices[k].size();
 
-  int M = faceIndices[idxIJ].size() - faceIndices[(idxIJ + 1) % 3].size() - faceIndices[(idxIJ + 2) % 3].size();
   int nbRemoved = 0; // total number of removed points
-  int i = 0;
-  while (nbRemoved < N) {
+  for (size_t i = 0; i < values.size() && nbRemoved < N; ++i) {
     std::array<size_t, 2> indices = values[i].second;
-    if (indices[0] == idxIJ) {
-      --M;
-    } else {
-      if (N - nbRemoved <= M) {
-        ++i;
-        continue;
-      }
-      ++M;
+
+    // skip this point if the triangle inequality could not be restored by the remaining removals
+    --nRemaining[indices[0]];
+    int total = nRemaining[0] + nRemaining[1] + nRemaining[2];
+    int largest = *std::max_element(nRemaining.begin(), nRemaining.end());
+    if (2 * largest - total > N - nbRemoved - 1) {
+      ++nRemaining[indices[0]];
+      continue;
     }
 
     removed[indices[0]][indices[1]] = true;
     ++nbRemoved;
-    ++i;
   }
-  assert(M <= 0);
 
   std::vector<std::vector<size_t>> crossingIndices(3);
   for (size_t i = 0; i < 3; ++i)
-- 
2.43.0


From 25de0676cff6f036508c250aedf1edfadaca7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 123/124] fix: stripe patterns: compare the field along each
 edge, so that neighboring faces agree where it turns fast

---
 src/surface/stripe_patterns.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index f8f8fee..4f57e50 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -191,14 +191,16 @@ std::tuple<CornerData<double>, FaceData<int>> computeTextureCoordinates(Intrinsi
 
       auto crossesSheets = [&](Halfedge hTarget) {
         Halfedge h = f.halfedge();
-        Vector2 Xi = Vector2::fromAngle(directionField[h.vertex()].arg() / 2);
-        Vector2 Xj = Vector2::fromAngle(directionField[hTarget.vertex()].arg() / 2);
+        bool crosses = false;
+        // compare the directions edge by edge, exactly as the 1-form and the energy do
         while (h != hTarget) {
           Vector2 r = geometry.transportVectorsAlongHalfedge[h];
-          Xi = r * Xi;
+          Vector2 Xi = Vector2::fromAngle(directionField[h.vertex()].arg() / 2);
+          Vector2 Xj = Vector2::fromAngle(directionField[h.next().vertex()].arg() / 2);
+          if (dot(r * Xi, Xj) <= 0) crosses = !crosses;
           h = h.next();
         }
-        return dot(Xi, Xj) <= 0;
+        return crosses;
       };
 
       if (crossesSheets(he)) {
-- 
2.43.0


From ad3edb2b7efc91aceb48b9882d55613c2eb708f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 124/124] fix: stripe patterns: index vertices correctly on
 meshes which are not compressed

---
 src/surface/stripe_patterns.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 4f57e50..7582bd4 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -122,11 +122,13 @@ SparseMatrix<double> computeRealVertexMassMatrix(IntrinsicGeometryInterface& geo
 
   SurfaceMesh& mesh = geometry.mesh;
 
+  geometry.requireVertexIndices();
   geometry.requireVertexDualAreas();
 
   std::vector<Eigen::Triplet<double>> triplets(2 * mesh.nVertices());
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    double area = geometry.vertexDualAreas[i];
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    double area = geometry.vertexDualAreas[v];
     triplets[2 * i] = Eigen::Triplet<double>(2 * i, 2 * i, area);
     triplets[2 * i + 1] = Eigen::Triplet<double>(2 * i + 1, 2 * i + 1, area);
   }
@@ -154,10 +156,11 @@ VertexData<Vector2> computeParameterization(IntrinsicGeometryInterface& geometry
 
   // Copy the result to a VertexData vector
   VertexData<Vector2> toReturn(mesh);
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    toReturn[i].x = solution(2 * i);
-    toReturn[i].y = solution(2 * i + 1);
-    toReturn[i] = toReturn[i].normalize();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    toReturn[v].x = solution(2 * i);
+    toReturn[v].y = solution(2 * i + 1);
+    toReturn[v] = toReturn[v].normalize();
   }
   return toReturn;
 }
-- 
2.43.0

