// C07: the quantity caches of the geometry classes as a state machine.  Every word over
// {require q, unrequire q, purge, change the input + refresh, mutate the mesh + refresh} up to a length, for every
// quantity and every pair of quantities; after every step each required quantity must equal what a fresh geometry computes.
#include "mc.h"
#include "gen.h"
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace geometrycentral::pointcloud;
using namespace mc;
using gen::Polys;
using Vals = std::vector<double>;

static void flat(Vals& o, double x) { o.push_back(x); }
static void flat(Vals& o, size_t x) { o.push_back(x == INVALID_IND ? -1. : (double)x); }
static void flat(Vals& o, std::complex<double> x) { o.push_back(x.real()), o.push_back(x.imag()); }
static void flat(Vals& o, const Vector2& x) { o.push_back(x.x), o.push_back(x.y); }
static void flat(Vals& o, const Vector3& x) { o.push_back(x.x), o.push_back(x.y), o.push_back(x.z); }
static void flat(Vals& o, const Eigen::VectorXd& x) {
  o.push_back((double)x.size());
  for (Eigen::Index i = 0; i < x.size(); i++) o.push_back(x[i]);
}
static void flat(Vals& o, const Point& p) { o.push_back((double)p.getIndex()); }
template <class T, size_t N>
static void flat(Vals& o, const std::array<T, N>& x) {
  for (auto& y : x) flat(o, y);
}
template <class T>
static void flat(Vals& o, const std::vector<T>& x) {
  o.push_back((double)x.size());
  for (auto& y : x) flat(o, y);
}
template <class T>
static void flat(Vals& o, const Eigen::SparseMatrix<T>& m) {
  o.push_back((double)m.rows());
  o.push_back((double)m.cols());
  Eigen::Matrix<T, -1, -1> d(m);
  for (Eigen::Index i = 0; i < d.rows(); i++)
    for (Eigen::Index j = 0; j < d.cols(); j++) flat(o, d(i, j));
}
template <class E, class T>
static void flat(Vals& o, const MeshData<E, T>& d) {
  if (d.getMesh() == nullptr) {
    o.push_back(-777);
    return;
  }
  for (E e : iterateElements<E>(d.getMesh())) flat(o, d[e]);
}
static void flat(Vals& o, const std::unique_ptr<Neighborhoods>& n) {
  if (!n) o.push_back(-778);
  else flat(o, n->neighbors);
}
static void flatMesh(Vals& o, const std::unique_ptr<SurfaceMesh>& m, const std::unique_ptr<EdgeLengthGeometry>& g) {
  if (!m || !g) {
    o.push_back(-779);
    return;
  }
  for (auto& f : m->getFaceVertexList()) flat(o, f);
  flat(o, g->inputEdgeLengths);
}

template <class E, class T>
static bool isEmpty(const MeshData<E, T>& d) { return d.size() == 0; }
template <class T>
static bool isEmpty(const Eigen::SparseMatrix<T>& m) { return m.rows() == 0 && m.cols() == 0 && m.nonZeros() == 0; }
template <class T>
static bool isEmpty(const std::unique_ptr<T>& m) { return !m; }
static bool isEmpty(double) { return true; }

template <class G>
struct Quantity {
  std::string name;
  std::function<void(G&)> req, unreq;
  std::function<void(G&, Vals&)> read;
  std::function<bool(G&)> empty;
  bool input = false;
};

#define Q1(N, f)                                                                                                       \
  r.push_back({#N, [](G& g) { g.require##N(); }, [](G& g) { g.unrequire##N(); }, [](G& g, Vals& o) { flat(o, g.f); },   \
               [](G& g) { return isEmpty(g.f); }})

template <class G>
static std::vector<Quantity<G>> intrinsicQ() {
  std::vector<Quantity<G>> r;
  Q1(VertexIndices, vertexIndices);
  Q1(InteriorVertexIndices, interiorVertexIndices);
  Q1(EdgeIndices, edgeIndices);
  Q1(HalfedgeIndices, halfedgeIndices);
  Q1(CornerIndices, cornerIndices);
  Q1(FaceIndices, faceIndices);
  Q1(BoundaryLoopIndices, boundaryLoopIndices);
  Q1(EdgeLengths, edgeLengths);
  Q1(FaceAreas, faceAreas);
  Q1(VertexDualAreas, vertexDualAreas);
  Q1(CornerAngles, cornerAngles);
  Q1(VertexAngleSums, vertexAngleSums);
  Q1(CornerScaledAngles, cornerScaledAngles);
  Q1(VertexGaussianCurvatures, vertexGaussianCurvatures);
  Q1(FaceGaussianCurvatures, faceGaussianCurvatures);
  Q1(HalfedgeCotanWeights, halfedgeCotanWeights);
  Q1(EdgeCotanWeights, edgeCotanWeights);
  Q1(ShapeLengthScale, shapeLengthScale);
  Q1(MeshLengthScale, meshLengthScale);
  Q1(HalfedgeVectorsInFace, halfedgeVectorsInFace);
  Q1(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedge);
  Q1(HalfedgeVectorsInVertex, halfedgeVectorsInVertex);
  Q1(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedge);
  Q1(CotanLaplacian, cotanLaplacian);
  Q1(VertexLumpedMassMatrix, vertexLumpedMassMatrix);
  Q1(VertexGalerkinMassMatrix, vertexGalerkinMassMatrix);
  Q1(VertexConnectionLaplacian, vertexConnectionLaplacian);
  Q1(FaceGalerkinMassMatrix, faceGalerkinMassMatrix);
  Q1(FaceConnectionLaplacian, faceConnectionLaplacian);
  Q1(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacian);
  Q1(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrix);
  Q1(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacian);
  r.push_back({"DECOperators", [](G& g) { g.requireDECOperators(); }, [](G& g) { g.unrequireDECOperators(); },
               [](G& g, Vals& o) {
                 for (auto* m : {&g.hodge0, &g.hodge0Inverse, &g.hodge1, &g.hodge1Inverse, &g.hodge2, &g.hodge2Inverse, &g.d0, &g.d1}) flat(o, *m);
               },
               [](G& g) {
                 bool e = true;
                 for (auto* m : {&g.hodge0, &g.hodge0Inverse, &g.hodge1, &g.hodge1Inverse, &g.hodge2, &g.hodge2Inverse, &g.d0, &g.d1}) e = e && isEmpty(*m);
                 return e;
               }});
  return r;
}
static std::vector<Quantity<EdgeLengthGeometry>> quantities(EdgeLengthGeometry*) {
  auto r = intrinsicQ<EdgeLengthGeometry>();
  for (auto& q : r)
    if (q.name == "EdgeLengths") q.input = true;
  return r;
}
static std::vector<Quantity<VertexPositionGeometry>> quantities(VertexPositionGeometry*) {
  using G = VertexPositionGeometry;
  auto r = intrinsicQ<G>();
  Q1(EdgeDihedralAngles, edgeDihedralAngles);
  Q1(VertexMeanCurvatures, vertexMeanCurvatures);
  Q1(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvatures);
  Q1(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvatures);
  Q1(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirections);
  Q1(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirections);
  Q1(VertexPositions, vertexPositions);
  r.back().input = true;
  Q1(FaceNormals, faceNormals);
  Q1(VertexNormals, vertexNormals);
  Q1(FaceTangentBasis, faceTangentBasis);
  Q1(VertexTangentBasis, vertexTangentBasis);
  Q1(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormals);
  Q1(SimplePolygonLaplacian, simplePolygonLaplacian);
  Q1(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrix);
  Q1(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrix);
  Q1(PolygonLaplacian, polygonLaplacian);
  Q1(PolygonGradientMatrix, polygonGradientMatrix);
  Q1(PolygonDivergenceMatrix, polygonDivergenceMatrix);
  Q1(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrix);
  Q1(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacian);
  r.push_back({"PolygonDECOperators", [](G& g) { g.requirePolygonDECOperators(); }, [](G& g) { g.unrequirePolygonDECOperators(); },
               [](G& g, Vals& o) {
                 for (auto* m : {&g.polygonHodge0, &g.polygonHodge0Inverse, &g.polygonHodge1, &g.polygonHodge2, &g.polygonHodge2Inverse, &g.polygonD0, &g.polygonD1}) flat(o, *m);
               },
               [](G& g) {
                 bool e = true;
                 for (auto* m : {&g.polygonHodge0, &g.polygonHodge0Inverse, &g.polygonHodge1, &g.polygonHodge2, &g.polygonHodge2Inverse, &g.polygonD0, &g.polygonD1}) e = e && isEmpty(*m);
                 return e;
               }});
  return r;
}
template <class G>
static std::vector<Quantity<G>> pointQ() {
  std::vector<Quantity<G>> r;
  Q1(PointIndices, pointIndices);
  Q1(Neighbors, neighbors);
  Q1(Normals, normals);
  Q1(TangentBasis, tangentBasis);
  Q1(TangentCoordinates, tangentCoordinates);
  Q1(TangentTransport, tangentTransport);
  r.push_back({"TuftedTriangulation", [](G& g) { g.requireTuftedTriangulation(); }, [](G& g) { g.unrequireTuftedTriangulation(); },
               [](G& g, Vals& o) { flatMesh(o, g.tuftedMesh, g.tuftedGeom); }, [](G& g) { return !g.tuftedMesh && !g.tuftedGeom; }});
  Q1(Laplacian, laplacian);
  Q1(ConnectionLaplacian, connectionLaplacian);
  Q1(Gradient, gradient);
  return r;
}
static std::vector<Quantity<PointPositionGeometry>> quantities(PointPositionGeometry*) { return pointQ<PointPositionGeometry>(); }
static std::vector<Quantity<PointPositionNormalGeometry>> quantities(PointPositionNormalGeometry*) {
  auto r = pointQ<PointPositionNormalGeometry>();
  for (auto& q : r) q.input = q.name == "Normals";
  return r;
}
static std::vector<Quantity<PointPositionFrameGeometry>> quantities(PointPositionFrameGeometry*) {
  auto r = pointQ<PointPositionFrameGeometry>();
  for (auto& q : r) q.input = q.name == "Normals" || q.name == "TangentBasis";
  return r;
}

// ---- worlds: an input domain with two input variants and (for meshes) a mutation
static Vector3 pos(size_t v, int variant) { // generic positions on a bumpy convex-ish surface
  double a = 2.39996 * v + 0.3 * variant, z = 0.9 - 0.17 * ((v * 5 + 2) % 11);
  double r = 1.1 + 0.07 * ((v * 3) % 5) + (variant ? 0.15 * ((v * 7) % 3) : 0.);
  return Vector3{r * std::cos(a), r * std::sin(a), z + (variant ? 0.21 * (v % 2) : 0.)};
}

template <class G>
struct World;

struct MeshWorldBase {
  std::unique_ptr<SurfaceMesh> mesh;
  int variant = 0, mutated = 0;
  Edge e;
  void build(const Polys& p, bool manifold) {
    if (manifold) mesh.reset(new ManifoldSurfaceMesh(p));
    else mesh.reset(new SurfaceMesh(p));
    for (Edge x : mesh->edges()) e = x;
    for (Edge x : mesh->edges()) // an edge that can be flipped back and forth
      if (mesh->isTriangular() && mesh->flip(x)) {
        for (int k = 0; k < 3; k++) mesh->flip(x);
        e = x;
        break;
      }
  }
};
template <>
struct World<VertexPositionGeometry> : MeshWorldBase {
  using G = VertexPositionGeometry;
  VertexData<Vector3> in() {
    VertexData<Vector3> p(*mesh);
    for (Vertex v : mesh->vertices()) p[v] = pos(v.getIndex(), variant);
    return p;
  }
  std::unique_ptr<G> fresh() { return std::unique_ptr<G>(new G(*mesh, in())); }
  void vary(G& g) {
    variant ^= 1;
    g.inputVertexPositions = in();
  }
  void mutate(G&) {
    if (mesh->flip(e)) mutated = (mutated + 1) % 4; // four flips turn the edge back onto itself
  }
};
template <>
struct World<EdgeLengthGeometry> : MeshWorldBase {
  using G = EdgeLengthGeometry;
  EdgeData<double> in() {
    EdgeData<double> p(*mesh);
    for (Edge x : mesh->edges()) p[x] = norm(pos(x.firstVertex().getIndex(), variant) - pos(x.secondVertex().getIndex(), variant));
    return p;
  }
  std::unique_ptr<G> fresh() { return std::unique_ptr<G>(new G(*mesh, in())); }
  void vary(G& g) {
    variant ^= 1;
    g.inputEdgeLengths = in();
  }
  void mutate(G& g) {
    if (mesh->flip(e)) {
      mutated = (mutated + 1) % 4;
      g.inputEdgeLengths = in();
    }
  }
};
struct CloudWorldBase {
  std::unique_ptr<PointCloud> cloud;
  int variant = 0, mutated = 0;
  Vector3 where(Point p) {
    size_t v = p.getIndex();
    double a = 2.39996 * v, r = 0.35 * std::sqrt((double)v + 0.5);
    return Vector3{r * std::cos(a) + (variant ? 0.1 * ((v * 5) % 3) : 0), r * std::sin(a), 0.2 * std::sin(3 * r + v) + (variant ? 0.07 * (v % 2) : 0)};
  }
  Vector3 nrm(Point p) { return unit(Vector3{0.1 * std::sin(1. + p.getIndex()), 0.1 * std::cos(2. * p.getIndex()), 1. - 2. * (p.getIndex() % 4 == 1)}); }
  PointData<Vector3> in() {
    PointData<Vector3> p(*cloud);
    for (Point x : cloud->points()) p[x] = where(x);
    return p;
  }
  PointData<Vector3> inN() {
    PointData<Vector3> p(*cloud);
    for (Point x : cloud->points()) p[x] = nrm(x);
    return p;
  }
  PointData<std::array<Vector3, 3>> inF() {
    PointData<std::array<Vector3, 3>> p(*cloud);
    for (Point x : cloud->points()) {
      Vector3 n = nrm(x);
      auto b = n.buildTangentBasis();
      double t = 0.4 * x.getIndex();
      Vector3 u = std::cos(t) * b[0] + std::sin(t) * b[1];
      p[x] = {{u, cross(n, u), n}};
    }
    return p;
  }
  static PointPositionGeometry* make(CloudWorldBase& w, PointPositionGeometry*) { return new PointPositionGeometry(*w.cloud, w.in()); }
  static PointPositionNormalGeometry* make(CloudWorldBase& w, PointPositionNormalGeometry*) { return new PointPositionNormalGeometry(*w.cloud, w.in(), w.inN()); }
  static PointPositionFrameGeometry* make(CloudWorldBase& w, PointPositionFrameGeometry*) { return new PointPositionFrameGeometry(*w.cloud, w.in(), w.inF()); }
};
template <class GG>
struct CloudWorld : CloudWorldBase {
  using G = GG;
  std::unique_ptr<G> fresh() {
    std::unique_ptr<G> g(make(*this, (G*)nullptr));
    g->kNeighborSize = mutated ? 4 : 6;
    return g;
  }
  void vary(G& g) {
    variant ^= 1;
    g.positions = in();
  }
  void mutate(G& g) {
    mutated ^= 1;
    g.kNeighborSize = mutated ? 4 : 6;
  }
};
template <>
struct World<PointPositionGeometry> : CloudWorld<PointPositionGeometry> {};
template <>
struct World<PointPositionNormalGeometry> : CloudWorld<PointPositionNormalGeometry> {};
template <>
struct World<PointPositionFrameGeometry> : CloudWorld<PointPositionFrameGeometry> {};

static bool same(const Vals& a, const Vals& b, std::string& why) {
  if (a.size() != b.size()) {
    why = cat("size ", a.size(), " instead of ", b.size());
    return false;
  }
  for (size_t i = 0; i < a.size(); i++) {
    if (std::isnan(a[i]) && std::isnan(b[i])) continue;
    if (!closeRel(a[i], b[i], 1e-11)) {
      why = cat("entry ", i, " is ", a[i], " instead of ", b[i]);
      return false;
    }
  }
  return true;
}

template <class G>
struct Machine {
  Ctx& ctx;
  World<G> w;
  std::vector<Quantity<G>> qs = quantities((G*)nullptr);
  std::map<std::array<int, 3>, Vals> ref; // (quantity, variant, mutated) -> value from a fresh geometry
  std::vector<bool> usable;
  std::string where;
  Machine(Ctx& c) : ctx(c) {}

  const Vals& want(int q) {
    std::array<int, 3> k{q, w.variant, w.mutated};
    auto it = ref.find(k);
    if (it != ref.end()) return it->second;
    auto g = w.fresh();
    qs[q].req(*g);
    Vals v;
    qs[q].read(*g, v);
    return ref[k] = v;
  }
  void init() { // quantities this domain does not support throw on require
    for (size_t q = 0; q < qs.size(); q++) {
      bool ok = true;
      for (int i = 0; i < 4 && ok; i++) {
        try {
          auto g = w.fresh();
          if (i & 1) w.mutate(*g);
          if (i & 2) w.vary(*g);
          g = w.fresh();
          qs[q].req(*g);
        } catch (const std::exception&) {
          ok = false;
        }
        while (w.variant) {
          auto g = w.fresh();
          w.vary(*g);
        }
        while (w.mutated) {
          auto g = w.fresh();
          w.mutate(*g);
        }
      }
      usable.push_back(ok);
    }
  }
  // letters: 0..1 require/unrequire a, 2..3 require/unrequire b, 4 purge, 5 vary+refresh, 6 mutate+refresh
  // returns false if the word is not well-formed (an unmatched unrequire in a pair word)
  bool runWord(const std::vector<int>& qsel, const std::vector<int>& word) {
    auto name = [&]() {
      std::string s = where + ":";
      for (int l : word) s += " " + (l < 4 ? std::string(l % 2 ? "-" : "+") + qs[qsel[l / 2]].name : std::string(l == 4 ? "purge" : l == 5 ? "move+refresh" : "mutate+refresh"));
      return s;
    };
    std::vector<int> cnt(qsel.size(), 0);
    {
      std::vector<int> c(qsel.size(), 0);
      bool neg = false;
      for (int l : word)
        if (l < 4 && (l % 2 ? --c[l / 2] : ++c[l / 2]) < 0) {
          if (qsel.size() > 1 || qs[qsel[l / 2]].input) return false;
          neg = true;
          c[l / 2] = 0;
        }
      (void)neg;
    }
    auto g = w.fresh();
    bool refreshed = false;
    std::vector<bool> ever(qsel.size(), false);
    std::string why;
    for (size_t i = 0; i < word.size(); i++) {
      int l = word[i];
      ctx.transition();
      try {
        if (l < 4) {
          int s = l / 2;
          if (l % 2 == 0) {
            cnt[s]++;
            ever[s] = true;
            qs[qsel[s]].req(*g);
          } else if (cnt[s] == 0) {
            bool threw = false;
            try {
              qs[qsel[s]].unreq(*g);
            } catch (const std::exception&) {
              threw = true;
            }
            if (!threw) return fail(name(), i, "unmatched unrequire was accepted");
          } else {
            cnt[s]--;
            qs[qsel[s]].unreq(*g);
          }
        } else if (l == 4)
          g->purgeQuantities();
        else {
          if (l == 5) w.vary(*g);
          else w.mutate(*g);
          g->refreshQuantities();
          refreshed = true;
        }
      } catch (const std::exception& e) {
        return fail(name(), i, cat("exception ", e.what()));
      }
      for (size_t s = 0; s < qsel.size(); s++) {
        if (cnt[s] > 0 || qs[qsel[s]].input) {
          Vals v;
          qs[qsel[s]].read(*g, v);
          if (!same(v, want(qsel[s]), why)) return fail(name(), i, cat(qs[qsel[s]].name, " differs from a fresh geometry: ", why));
        } else if (l == 4 && !refreshed && !qs[qsel[s]].empty(*g))
          return fail(name(), i, cat(qs[qsel[s]].name, " is not required but was not purged"));
      }
    }
    ctx.trace();
    // restore the domain for the next word
    g = nullptr;
    if (w.variant) {
      auto h = w.fresh();
      w.vary(*h);
    }
    while (w.mutated) {
      auto h = w.fresh();
      w.mutate(*h);
    }
    return true;
  }
  bool fail(const std::string& n, size_t step, const std::string& m) {
    ctx.fail(n, cat(n, ": after step ", step + 1, ": ", m));
    auto h = w.fresh();
    if (w.variant) w.vary(*h);
    while (w.mutated) w.mutate(*h);
    return false;
  }
  void words(const std::vector<int>& qsel, const std::vector<int>& letters, int len) {
    std::vector<int> ix(len, 0), word(len);
    while (true) {
      for (int i = 0; i < len; i++) word[i] = letters[ix[i]];
      bool useful = word[0] < 4 && word[0] % 2 == 0; // geometry classes are idle before the first require
      if (qsel.size() > 1) {
        bool b = false;
        for (int l : word) b = b || l == 2;
        useful = useful && (b || word[0] == 2);
        if (word[0] == 0) {
          useful = useful && b;
        } else {
          bool a = false;
          for (int l : word) a = a || l == 0;
          useful = useful && a;
        }
      } else if (word[0] == 1)
        useful = true; // misuse first
      if (useful) runWord(qsel, word);
      int i = len - 1;
      while (i >= 0 && ix[i] == (int)letters.size() - 1) ix[i--] = 0;
      if (i < 0) break;
      ix[i]++;
    }
  }
  void single(int q, int len) {
    if (!usable[q]) {
      ctx.outcome("unsupported on this domain");
      return;
    }
    ctx.outcome(qs[q].input ? "input quantity" : "cached quantity");
    ctx.state(hashStr(where + qs[q].name));
    words({q}, {0, 1, 4, 5, 6}, len);
  }
  void pair(int a, int b, int len, bool mut) {
    if (!usable[a] || !usable[b]) return;
    ctx.state(hashStr(where + qs[a].name + "/" + qs[b].name));
    if (mut) words({a, b}, {0, 1, 2, 3, 4, 5, 6}, len);
    else words({a, b}, {0, 1, 2, 3, 4, 5}, len);
  }
  // copies and reinterpretations share inputs only by value
  void copies(ManifoldSurfaceMesh*) {
    auto m2 = w.mesh->copyToSurfaceMesh();
    for (size_t q = 0; q < qs.size(); q++) {
      if (!usable[q]) continue;
      auto g = w.fresh();
      for (size_t o = 0; o < qs.size(); o += 5)
        if (usable[o]) qs[o].req(*g);
      auto c = g->copy();
      auto r = g->reinterpretTo(*m2);
      Vals v;
      std::string why;
      qs[q].req(*c);
      qs[q].read(*c, v);
      if (!same(v, want(q), why)) ctx.fail(cat("copy:", where, qs[q].name), cat(where, " ", qs[q].name, " of a copied geometry: ", why));
      v.clear();
      // quantities of a general mesh may differ in gauge; only class-preserving copies are compared
      if (m2->usesImplicitTwin() == w.mesh->usesImplicitTwin()) {
        qs[q].req(*r);
        qs[q].read(*r, v);
        if (!same(v, want(q), why)) ctx.fail(cat("reinterpret:", where, qs[q].name), cat(where, " ", qs[q].name, " of a reinterpreted geometry: ", why));
      }
      // and the copy is independent
      Vals keep;
      qs[q].read(*c, keep);
      w.vary(*g);
      g->refreshQuantities();
      g.reset();
      c->refreshQuantities();
      v.clear();
      qs[q].read(*c, v);
      if (!same(v, keep, why)) ctx.fail(cat("independent:", where, qs[q].name), cat(where, " ", qs[q].name, " of a copy changed with the original: ", why));
      auto h = w.fresh();
      w.vary(*h);
      ctx.transition(4);
    }
  }
};

template <class G>
static void domain(Ctx& ctx, const std::string& nm, const std::function<void(World<G>&)>& build, int single, int pair, bool mutPairs, bool copies) {
  size_t n = quantities((G*)nullptr).size();
  std::unique_ptr<Machine<G>> m;
  auto get = [&]() -> Machine<G>& {
    if (!m) {
      m.reset(new Machine<G>(ctx));
      m->where = nm;
      build(m->w);
      m->init();
    }
    return *m;
  };
  for (size_t q = 0; q < n; q++)
    if (ctx.beginf([&] { return cat(nm, "-single", q); })) get().single((int)q, single);
  if (pair)
    for (size_t a = 0; a < n; a++)
      for (size_t b = a + 1; b < n; b++)
        if (ctx.beginf([&] { return cat(nm, "-pair", a, "-", b); })) get().pair((int)a, (int)b, pair, mutPairs);
  if (copies && ctx.beginf([&] { return nm + "-copies"; })) {
    if constexpr (std::is_base_of<MeshWorldBase, World<G>>::value) get().copies(nullptr);
  }
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C07";
  o.technique = "exhaustive exploration of require/unrequire/purge/refresh words on the real geometry objects";
  o.rule = "for every quantity all words over {require, unrequire, purge, move+refresh, mutate+refresh} and for every pair of quantities all interleaved words up to the stated length; "
           "after every step each required quantity is compared with a fresh geometry on the same input";
  o.assumptions = {"interactions of three or more explicitly required quantities are covered only through dependencies", "values are compared to 1e-11 relative"};
  o.caseCpuLimit = 120;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    ctx.sample("closedFan4: +CotanLaplacian purge +FaceAreas move+refresh -CotanLaplacian purge");
    auto surf = [](const Polys& p, bool man) { return [p, man](auto& w) { w.build(p, man); }; };
    struct D {
      std::string nm;
      Polys p;
      bool man;
      int single, pair;
    };
    std::vector<D> ds = {{"closedFan4", gen::closedFan(4), true, 5, 5},
                         {"tetra", gen::tetra(), true, 4, 0},
                         {"octa", gen::bipyramid(4), true, 5, 4},
                         {"grid", gen::grid(2, 2, 1), true, 4, 0},
                         {"quads", gen::grid(2, 2, 0), true, 4, 0},
                         {"cube", gen::cube(), true, 5, 4},
                         {"general-fan", gen::closedFan(4), false, 5, 4},
                         {"book", gen::book(3), false, 5, 4},
                         {"pinch", {{0, 1, 2}, {0, 3, 4}}, false, 4, 0},
                         {"two", gen::disjointUnion(gen::openFan(2), gen::tetra()), true, 4, 0}};
    for (auto& d : ds) {
      domain<VertexPositionGeometry>(ctx, "VPG-" + d.nm, surf(d.p, d.man), d.single + th, d.pair, th, true);
      domain<EdgeLengthGeometry>(ctx, "ELG-" + d.nm, surf(d.p, d.man), d.single + th, d.pair, th, true);
    }
    auto cl = [](size_t n) { return [n](auto& w) { w.cloud.reset(new PointCloud(n)); }; };
    domain<PointPositionGeometry>(ctx, "cloud9", cl(9), 5, 4, th, false);
    domain<PointPositionNormalGeometry>(ctx, "cloudN9", cl(9), 5, 4, th, false);
    domain<PointPositionFrameGeometry>(ctx, "cloudF9", cl(9), 5, 4, th, false);
  });
}
