// Common sets of small input surfaces (embedded shapes and gluings with edge lengths) for the algorithm checks.
#pragma once
#include "gen.h"
#include "geo.h"
#include "geod.h"
#include "geometrycentral/surface/edge_length_geometry.h"

namespace suite {
using namespace geometrycentral;
using namespace geometrycentral::surface;

struct In {
  std::string name;
  gen::Polys P;
  geo::Pts p;            // an embedded shape, or
  gen::Twins tw;         // a gluing
  std::vector<double> L; // with edge lengths, by edge index
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> vpg;
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* g = nullptr;
  std::unique_ptr<geod::Metric> M;
  bool planar = false;
  void build() {
    if (p.size()) {
      auto e = geo::manifold(P, p);
      mesh = std::move(e.mesh);
      vpg = std::move(e.geom);
      g = vpg.get();
      EdgeData<double> len(*mesh);
      for (Edge ed : mesh->edges()) len[ed] = norm(p[ed.firstVertex().getIndex()] - p[ed.secondVertex().getIndex()]);
      M.reset(new geod::Metric(*mesh, len));
      planar = true;
      for (auto& x : p)
        if (x.z != 0) planar = false;
    } else {
      std::vector<std::vector<std::tuple<size_t, size_t>>> T(P.size());
      for (size_t f = 0; f < P.size(); f++)
        for (auto& t : tw[f]) T[f].push_back(t.first < 0 ? std::make_tuple(INVALID_IND, INVALID_IND) : std::make_tuple((size_t)t.first, (size_t)t.second));
      mesh.reset(new ManifoldSurfaceMesh(P, T));
      EdgeData<double> len(*mesh);
      for (Edge ed : mesh->edges()) len[ed] = L[ed.getIndex()];
      elg.reset(new EdgeLengthGeometry(*mesh, len));
      g = elg.get();
      M.reset(new geod::Metric(*mesh, len));
    }
  }
};
inline In from(const geo::Shape& s) {
  In i;
  i.name = s.name;
  i.P = s.P;
  i.p = s.p;
  return i;
}
// collapse some edges of an embedded mesh (not moving the remaining vertices), so that its element indices have holes
inline bool punch(In& in, size_t times = 2) {
  bool did = false;
  for (size_t k = 0; k < times; k++) {
    for (Edge e : in.mesh->edges()) {
      if (e.isBoundary() || e.firstVertex().isBoundary() || e.secondVertex().isBoundary()) continue;
      // link condition, and room to spare
      std::set<size_t> a, b, common;
      for (Vertex v : e.firstVertex().adjacentVertices()) a.insert(v.getIndex());
      for (Vertex v : e.secondVertex().adjacentVertices()) b.insert(v.getIndex());
      for (size_t x : a)
        if (b.count(x)) common.insert(x);
      if (common.size() != 2 || in.mesh->nVertices() < 6) continue;
      Vector3 A = in.vpg->vertexPositions[e.firstVertex()], B = in.vpg->vertexPositions[e.secondVertex()];
      Vertex v = in.mesh->collapseEdgeTriangular(e);
      if (v == Vertex()) continue;
      in.vpg->vertexPositions[v] = .5 * (A + B);
      did = true;
      break;
    }
  }
  if (!did || in.mesh->isCompressed()) return false;
  in.vpg->refreshQuantities();
  EdgeData<double> len(*in.mesh);
  for (Edge ed : in.mesh->edges()) {
    len[ed] = norm(in.vpg->vertexPositions[ed.firstVertex()] - in.vpg->vertexPositions[ed.secondVertex()]);
    if (!(len[ed] > 1e-6)) return false;
  }
  in.M.reset(new geod::Metric(*in.mesh, len));
  in.name += "-holes";
  for (Face f : in.mesh->faces())
    if (!(in.M->area[f] > 1e-3)) return false;
  return in.M->valid;
}
// a shape with vertices moved by a fixed irregular pattern
inline geo::Shape jitter(geo::Shape s, double amt, bool flat = false) {
  for (size_t i = 0; i < s.p.size(); i++) {
    s.p[i].x += amt * (((i * 5 + 2) % 7) / 6. - .5);
    s.p[i].y += amt * (((i * 3 + 1) % 5) / 4. - .5);
    if (!flat) s.p[i].z += amt * (((i * 7 + 3) % 11) / 10. - .5);
  }
  s.name += "j";
  return s;
}
// closed cone / saddle: n triangles around an apex, boundary circle of radius 1, apex height h, ring wave amplitude w
inline geo::Shape cone(size_t n, double h, double w = 0) {
  geo::Shape s;
  s.name = mc::cat("cone", n, "h", h, "w", w);
  s.P = gen::closedFan(n);
  s.p.push_back({0, 0, h});
  for (size_t i = 0; i < n; i++) s.p.push_back(Vector3{std::cos(2 * geo::PI * i / n), std::sin(2 * geo::PI * i / n), w * (i % 2 ? 1. : -1.)});
  return s;
}
// open fan in the plane spanning `ang` radians
inline geo::Shape fan(size_t n, double ang) {
  geo::Shape s;
  s.name = mc::cat("fan", n, "a", ang);
  s.P = gen::openFan(n);
  s.p.push_back({0, 0, 0});
  for (size_t i = 0; i <= n; i++) s.p.push_back(Vector3{(1 + .2 * (i % 3)) * std::cos(ang * i / n), (1 + .2 * (i % 3)) * std::sin(ang * i / n), 0});
  return s;
}
// triangle meshes, closed and open, disks and not
inline std::vector<geo::Shape> triShapes(bool thorough) {
  using namespace geo;
  std::vector<Shape> r{tetrahedron(), octahedron(), cubeTri(), icosahedron(), planarGrid(1, 1, 1), planarGrid(2, 2, 2), planarGrid(3, 2, 1), planarGrid(3, 3, 2),
                       planarGrid(2, 2, 1, true), planarGrid(3, 3, 1, true), planarGrid(4, 3, 2, true), cylinder(3, 1, 2), cylinder(4, 2, 1), torus(3, 3, 1), torus(4, 3, 2),
                       cone(3, .5), cone(5, 1), cone(6, 0, .6), cone(8, .3, .9), fan(3, 2), fan(4, 3.5), fan(5, 5.5)};
  r.push_back(jitter(icosahedron(), .5));
  r.push_back(jitter(cubeTri(), .4));
  r.push_back(jitter(planarGrid(3, 3, 1), .5, true));
  r.push_back(jitter(cylinder(4, 2, 1), .4));
  r.push_back(jitter(torus(4, 4, 1), .6));
  if (thorough) {
    r.push_back(midpoint(octahedron()));
    r.push_back(jitter(midpoint(tetrahedron()), .3));
    r.push_back(jitter(midpoint(icosahedron()), .3));
    r.push_back(jitter(planarGrid(5, 5, 2, true), .4));
    r.push_back(jitter(torus(5, 5, 2), .5));
    r.push_back(jitter(cylinder(6, 4, 2), .3));
    r.push_back(cone(12, 2, 1.5));
  }
  return r;
}
// every gluing of nf triangles with every assignment of lengths from the list that gives proper triangles
inline void glued(size_t nf, const std::vector<double>& lens, bool selfEdges, const std::function<void(In&)>& f) {
  gen::gluings(std::vector<int>(nf, 3), [&](const gen::Polys& P, const gen::Twins& t) {
    if (!selfEdges && !gen::noSelfEdge(P)) return;
    gen::HS hs;
    if (!gen::manifoldFromTwins(P, t, hs).empty()) return;
    std::vector<std::vector<std::tuple<size_t, size_t>>> T(P.size());
    for (size_t i = 0; i < P.size(); i++)
      for (auto& x : t[i]) T[i].push_back(x.first < 0 ? std::make_tuple(INVALID_IND, INVALID_IND) : std::make_tuple((size_t)x.first, (size_t)x.second));
    std::unique_ptr<ManifoldSurfaceMesh> probe;
    try {
      probe.reset(new ManifoldSurfaceMesh(P, T));
    } catch (std::exception&) {
      return;
    }
    size_t nE = probe->nEdges();
    std::vector<size_t> d(nE, 0);
    while (true) {
      bool ok = true;
      for (Face F : probe->faces()) {
        double l[3];
        int i = 0;
        for (Edge e : F.adjacentEdges()) l[i++] = lens[d[e.getIndex()]];
        for (int k = 0; k < 3; k++)
          if (l[k] >= .999 * (l[(k + 1) % 3] + l[(k + 2) % 3])) ok = false;
      }
      if (ok) {
        In in;
        in.P = P;
        in.tw = t;
        for (size_t k : d) in.L.push_back(lens[k]);
        in.name = mc::cat("glue", gen::str(t), mc::str(in.L));
        f(in);
      }
      size_t k = 0;
      while (k < nE && ++d[k] == lens.size()) d[k++] = 0;
      if (k == nE) break;
    }
  });
}
} // namespace suite
