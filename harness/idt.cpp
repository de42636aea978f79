// C09 / C10 / C11: intrinsic triangulations.  Exhaustive search over sequences of intrinsic operations from small
// surfaces; after every step the triangulation is checked against an independent unfolding reference.
//   --signpost (C09)   --integer (C10)   --subdivision (C11, both representations)
#include "geo.h"
#include "geod.h"
#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using namespace geod;
using geo::Shape;
using SPath = std::vector<SurfacePoint>;

enum Kind { SIGN, INTC };
static bool subdivMode = false;

struct Op {
  char t;
  int i;
  double x = 0;
  bool operator<(const Op& o) const { return std::tie(t, i, x) < std::tie(o.t, o.i, o.x); }
};
static std::string str(const std::vector<Op>& w) {
  std::string s;
  for (auto& o : w) s += cat(s.empty() ? "" : " ", o.t, o.i, o.x ? cat("@", o.x) : "");
  return s.empty() ? "start" : s;
}

struct Input {
  std::string name;
  gen::Polys P;
  geo::Pts p;            // embedded shape, or
  gen::Twins tw;         // gluing with edge lengths
  std::vector<double> L; // indexed by mesh edge
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> vpg;
  std::unique_ptr<EdgeLengthGeometry> elg;
  IntrinsicGeometryInterface* g = nullptr;
  std::unique_ptr<Metric> M;
  bool planar = false;
  void build() {
    if (p.size()) {
      auto e = geo::manifold(P, p);
      mesh = std::move(e.mesh);
      vpg = std::move(e.geom);
      g = vpg.get();
      EdgeData<double> len(*mesh);
      for (Edge ed : mesh->edges()) len[ed] = norm(vpg->vertexPositions[ed.firstVertex()] - vpg->vertexPositions[ed.secondVertex()]);
      M.reset(new Metric(*mesh, len));
      planar = true;
      for (auto& x : p)
        if (x.z != 0) planar = false;
    } else {
      std::vector<std::vector<std::tuple<size_t, size_t>>> T(P.size());
      for (size_t f = 0; f < P.size(); f++)
        for (auto& t : tw[f]) T[f].push_back(t.first < 0 ? std::make_tuple(INVALID_IND, INVALID_IND) : std::make_tuple((size_t)t.first, (size_t)t.second));
      mesh.reset(new ManifoldSurfaceMesh(P, T));
      EdgeData<double> len(*mesh);
      for (Edge ed : mesh->edges()) len[ed] = L[ed.getIndex()];
      elg.reset(new EdgeLengthGeometry(*mesh, len));
      g = elg.get();
      M.reset(new Metric(*mesh, len));
    }
  }
};

struct Run {
  Input& in;
  Kind kind;
  std::unique_ptr<IntrinsicTriangulation> T;
  int nFlipCb = 0, nSplitCb = 0, nInsCb = 0;
  std::vector<Edge> flipCb;
  std::string opErr;
  double flipMargin = 1;
  double insClear = 1e300;
  Run(Input& in_, Kind k) : in(in_), kind(k) {
    if (k == SIGN) T.reset(new SignpostIntrinsicTriangulation(*in.mesh, *in.g));
    else T.reset(new IntegerCoordinatesIntrinsicTriangulation(*in.mesh, *in.g));
    T->edgeFlipCallbackList.push_back([this](Edge e) {
      nFlipCb++;
      flipCb.push_back(e);
    });
    T->edgeSplitCallbackList.push_back([this](Edge, Halfedge a, Halfedge b) {
      nSplitCb++;
      if (a.vertex() != b.vertex()) opErr = "split callback: the two halfedges do not start at the new vertex";
    });
    T->faceInsertionCallbackList.push_back([this](Face, Vertex v) {
      nInsCb++;
      if (v == Vertex() || v.isDead()) opErr = "face insertion callback without a vertex";
    });
  }
  ManifoldSurfaceMesh& bm() { return *T->intrinsicMesh; }
};

struct Checker {
  Ctx& ctx;
  Run& r;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& q, const std::string& m) {
    if (seen.insert(q).second) ctx.fail(q + "|" + id, q + ": " + m + " [" + id + "]");
  }
  static std::string s(const SPath& P) {
    std::ostringstream o;
    for (auto& p : P) o << p << " ";
    return o.str();
  }

  // combinatorial sanity of the intrinsic mesh
  bool combinatorics() {
    ManifoldSurfaceMesh& m = r.bm();
    size_t nv = 0, ne = 0, nf = 0, nb = 0;
    for (Vertex v : m.vertices()) (void)v, nv++;
    for (Edge e : m.edges()) (void)e, ne++;
    for (Face f : m.faces()) (void)f, nf++;
    for (BoundaryLoop b : m.boundaryLoops()) (void)b, nb++;
    if (nv != m.nVertices() || ne != m.nEdges() || nf != m.nFaces()) bad("counts", "element counts do not match");
    ManifoldSurfaceMesh& a = *r.in.mesh;
    if ((long)nv - (long)ne + (long)nf != (long)a.nVertices() - (long)a.nEdges() + (long)a.nFaces()) bad("euler", "Euler characteristic changed");
    if (nb != a.nBoundaryLoops()) bad("boundary", "number of boundary loops changed");
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      if (h.next().next().next() != h) {
        bad("triangular", "a face is not a triangle");
        return false;
      }
      for (int i = 0; i < 3; i++, h = h.next()) {
        if (h.face() != f || h.twin().twin() != h || h.twin() == h || h.edge() != h.twin().edge() || h.twin().tailVertex() != h.tipVertex()) {
          bad("connectivity", "halfedge relations broken");
          return false;
        }
      }
    }
    return true;
  }
  // position of an input point in the plane (planar inputs)
  Vector2 planePos(const SurfacePoint& p) {
    Vector3 x = p.interpolate(r.in.vpg->vertexPositions);
    return {x.x, x.y};
  }

  std::unique_ptr<Metric> B;
  EdgeData<PathInfo> info; // direction of each intrinsic edge on the input, along edge.halfedge()

  void geometry() {
    ManifoldSurfaceMesh& m = r.bm();
    const Metric& A = *r.in.M;
    IntrinsicTriangulation& T = *r.T;
    B.reset(new Metric(m, T.edgeLengths));
    if (!B->valid) {
      bad("lengths", "edge lengths violate the triangle inequality");
      return;
    }
    if (!closeRel(B->total, A.total, 1e-7)) bad("area", cat("total area ", B->total, " instead of ", A.total));
    size_t nOrig = 0;
    std::vector<int> hit(r.in.mesh->nVertices(), 0);
    for (Vertex v : m.vertices()) {
      const SurfacePoint& l = T.vertexLocations[v];
      if (!validPoint(l, r.in.mesh.get(), 1e-6)) {
        bad("vertexLocations", cat("location of a vertex is not a point of the input: ", l));
        return;
      }
      double want = v.isBoundary() ? PI : 2 * PI;
      if (l.type == SurfacePointType::Vertex) {
        nOrig++;
        hit[l.vertex.getIndex()]++;
        want = A.sum[l.vertex];
        if (l.vertex.isBoundary() != v.isBoundary()) bad("boundary vertex", "an original vertex moved on or off the boundary");
      }
      if (!closeRel(B->sum[v], want, 1e-6)) bad("vertex angle sum", cat("is ", B->sum[v], " instead of ", want, " at ", l));
      if (!closeRel(T.vertexAngleSums[v], want, 1e-6)) bad("vertexAngleSums", cat("is ", T.vertexAngleSums[v], " instead of ", want, " at ", l));
    }
    for (int h : hit)
      if (h != 1) bad("original vertices", "not every input vertex is one intrinsic vertex");
    (void)nOrig;
    // tangent vectors of faces are kept up to date
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      Frame F = layout(*B, f);
      for (int i = 0; i < 3; i++, h = h.next()) {
        Vector2 w = F.q[(i + 1) % 3] - F.q[i];
        if (norm(T.halfedgeVectorsInFace[h] - w) > 1e-6 * B->mean) bad("halfedgeVectorsInFace", cat("is ", T.halfedgeVectorsInFace[h], " instead of ", w));
      }
    }
  }

  // both ends of a two-point path lie on one input edge
  static bool onInputEdge(const SPath& P) {
    if (P.size() != 2) return false;
    auto edges = [](const SurfacePoint& p) {
      std::set<size_t> r;
      if (p.type == SurfacePointType::Edge) r.insert(p.edge.getIndex());
      if (p.type == SurfacePointType::Vertex)
        for (Halfedge h : p.vertex.outgoingHalfedges()) r.insert(h.edge().getIndex());
      return r;
    };
    auto a = edges(P[0]);
    for (size_t e : edges(P[1]))
      if (a.count(e)) return true;
    return false;
  }
  // one straight path on M; picks the reading that matches expLen (and expAngle if finite)
  bool path(const Metric& M, const SurfaceMesh* mesh, const std::string& q, const SPath& P, double expLen, double expAngle, PathInfo& out) {
    for (auto& p : P)
      if (!validPoint(p, mesh, 1e-6)) {
        bad(q, cat("contains an invalid point: ", s(P)));
        return false;
      }
    std::string why;
    auto c = analyze(M, P, &why);
    if (c.empty()) {
      bad(q, cat(why, ": ", s(P)));
      return false;
    }
    double best = 1e300;
    for (auto& x : c) {
      double sc = std::abs(x.len - expLen) / M.mean;
      if (std::isfinite(expAngle)) sc += circDist(x.a0, expAngle, period(M, P[0]));
      if (sc < best) {
        best = sc;
        out = x;
      }
    }
    if (std::abs(out.len - expLen) > 1e-5 * M.mean) {
      bad(q, cat("has length ", out.len, " instead of ", expLen, ": ", s(P)));
      return false;
    }
    return true;
  }
  void traces() {
    ManifoldSurfaceMesh& m = r.bm();
    const Metric& A = *r.in.M;
    IntrinsicTriangulation& T = *r.T;
    EdgeData<SPath> all = T.traceAllIntrinsicEdgesAlongInput();
    info = EdgeData<PathInfo>(m);
    std::map<std::pair<int, size_t>, double> delta; // direction of the first halfedge of each vertex on the input
    bool ok = true;
    HalfedgeData<double> dirn(m, std::nan(""));
    HalfedgeData<char> have(m, 0);
    for (Vertex v : m.vertices()) {
      // walk counterclockwise, so that the expected direction of the next halfedge is known
      Halfedge first = v.halfedge(), h = first;
      double d0 = std::nan("");
      do {
        SPath P = T.traceIntrinsicHalfedgeAlongInput(h);
        ctx.eval();
        if (P.size() < 2) {
          bad("trace", "fewer than two points");
          return;
        }
        if (dist(A, P.front(), T.vertexLocations[h.tailVertex()]) > 1e-5 * A.mean) bad("trace start", cat("path starts at ", P.front(), " instead of ", T.vertexLocations[h.tailVertex()]));
        if (dist(A, P.back(), T.vertexLocations[h.tipVertex()]) > 1e-5 * A.mean) bad("trace end", cat("path ends at ", P.back(), " instead of ", T.vertexLocations[h.tipVertex()]));
        PathInfo pi;
        // a vertex location near the border of its simplex is only known up to numerics: measure from the location itself
        P.front() = T.vertexLocations[h.tailVertex()];
        P.back() = T.vertexLocations[h.tipVertex()];
        double want = std::isnan(d0) ? std::nan("") : d0 + B->phi[h];
        if (path(A, r.in.mesh.get(), "trace of an intrinsic edge", P, T.edgeLengths[h.edge()], want, pi)) {
          double per = period(A, P.front());
          if (std::isfinite(pi.a0)) {
            if (std::isnan(d0)) d0 = pi.a0 - B->phi[h];
            if (circDist(pi.a0, d0 + B->phi[h], per) > 1e-5 && pi.len > 1e-4 * A.mean)
              bad("directions", cat("edge leaves ", T.vertexLocations[v], " in direction ", pi.a0 - d0, " from the first edge, corner angles give ", B->phi[h]));
            dirn[h] = pi.a0;
          }
          if (h == h.edge().halfedge()) info[h.edge()] = pi;
          // shared edges
          bool orig = T.checkEdgeOriginal(h.edge());
          bool along = P.size() == 2 && P[0].type == SurfacePointType::Vertex && P[1].type == SurfacePointType::Vertex;
          if (orig && !along && !(r.kind == INTC && onInputEdge(P))) bad("checkEdgeOriginal", "true for an edge that does not run along an input edge");
          if (r.kind == INTC && along && !orig) bad("checkEdgeOriginal", "false for an edge that is an input edge");
        } else ok = false;
        if (!h.isInterior()) break;
        h = h.next().next().twin();
      } while (h != first);
    }
    if (!ok) return;
    // traceAll agrees with the single traces
    for (Edge e : m.edges()) {
      SPath P = T.traceIntrinsicHalfedgeAlongInput(e.halfedge());
      bool same = P.size() == all[e].size();
      for (size_t i = 0; same && i < P.size(); i++) same = dist(A, P[i], all[e][i]) < 1e-6 * A.mean;
      if (!same) bad("traceAll", cat("differs from the single trace: ", s(all[e]), " vs ", s(P)));
    }
    dirs = dirn;
  }
  HalfedgeData<double> dirs;

  // input edges along the intrinsic triangulation
  void inputTraces(bool pre) {
    const Metric& A = *r.in.M;
    IntrinsicTriangulation& T = *r.T;
    for (Vertex va : r.in.mesh->vertices()) {
      Vertex vb = r.bm().vertex(va.getIndex());
      double d0 = dirs[vb.halfedge()];
      for (Halfedge h : va.outgoingHalfedges()) {
        SPath P = T.traceInputHalfedgeAlongIntrinsic(h);
        ctx.eval();
        if (P.size() < 2 || !(P.front() == SurfacePoint(vb)) || !(P.back() == SurfacePoint(r.bm().vertex(h.tipVertex().getIndex())))) {
          if (P.size() < 2 || dist(*B, P.front(), SurfacePoint(vb)) > 1e-5 * B->mean || dist(*B, P.back(), SurfacePoint(r.bm().vertex(h.tipVertex().getIndex()))) > 1e-5 * B->mean) {
            bad("input trace ends", cat("path of an input edge has the wrong end points: ", s(P)));
            continue;
          }
        }
        P.front() = SurfacePoint(vb);
        P.back() = SurfacePoint(r.bm().vertex(h.tipVertex().getIndex()));
        PathInfo pi;
        double want = std::isnan(d0) ? d0 : A.phi[h] - d0;
        if (!path(*B, &r.bm(), "trace of an input edge", P, A.L[h.edge()], want, pi)) continue;
        if (std::isfinite(want) && circDist(pi.a0, want, B->sum[vb]) > 1e-5) bad("input directions", cat("an input edge leaves its vertex in direction ", pi.a0, " instead of ", want));
      }
    }
    if (pre) return;
    EdgeData<SPath> all = T.traceAllInputEdgesAlongIntrinsic();
    for (Edge e : r.in.mesh->edges()) {
      SPath P = T.traceInputHalfedgeAlongIntrinsic(e.halfedge());
      bool same = P.size() == all[e].size();
      for (size_t i = 0; same && i < P.size(); i++) same = dist(*B, P[i], all[e][i]) < 1e-6 * B->mean;
      if (!same) bad("traceAllInput", cat("differs from the single trace: ", s(all[e]), " vs ", s(P)));
    }
  }

  // correspondence of points
  void points(bool full) {
    ManifoldSurfaceMesh& m = r.bm();
    const Metric& A = *r.in.M;
    IntrinsicTriangulation& T = *r.T;
    auto expected = [&](Face f, Vector3 b, int c, Shot& sh) {
      Halfedge h = f.halfedge();
      for (int i = 0; i < c; i++) h = h.next();
      Frame F = layout(*B, f);
      Vector2 d = F.at(b) - F.q[c];
      double rel = (d / (F.q[(c + 1) % 3] - F.q[c])).arg();
      if (std::isnan(dirs[h])) return false;
      sh = shoot(A, T.vertexLocations[h.vertex()], dirs[h] + rel, norm(d));
      return !sh.hitBoundary && sh.clearance > 1e-4 * A.mean;
    };
    std::vector<Vector3> bs = {{1. / 3, 1. / 3, 1. / 3}, {.2, .3, .5}, {.7, .2, .1}, {.05, .05, .9}};
    for (Face f : m.faces())
      for (auto& b : bs) {
        SurfacePoint p(f, b);
        SurfacePoint q = T.equivalentPointOnInput(p);
        ctx.eval();
        if (!validPoint(q, r.in.mesh.get(), 1e-6)) {
          bad("equivalentPointOnInput", cat("of ", p, " is not a point of the input: ", q));
          continue;
        }
        Shot sh;
        for (int c = 0; c < 3; c++)
          if (expected(f, b, c, sh)) {
            double d = dist(A, q, sh.end, 1e-5);
            if (d > 1e-4 * A.mean) bad("equivalentPointOnInput", cat("of ", p, " is ", q, " instead of ", sh.end, " (distance ", d, ")"));
            break;
          }
        if (full && r.kind == SIGN) {
          SurfacePoint back = T.equivalentPointOnIntrinsic(q);
          if (!validPoint(back, &m, 1e-6) || dist(*B, back, p, 1e-5) > 1e-4 * B->mean) bad("equivalentPointOnIntrinsic", cat("of ", q, " is ", back, " instead of ", p));
        }
      }
    for (Edge e : m.edges())
      for (double t : {.5, .2}) {
        SurfacePoint p(e, t), q = T.equivalentPointOnInput(p);
        ctx.eval();
        if (!validPoint(q, r.in.mesh.get(), 1e-6)) {
          bad("equivalentPointOnInput", cat("of ", p, " is not a point of the input: ", q));
          continue;
        }
        Halfedge h = e.halfedge();
        if (std::isnan(dirs[h])) continue;
        Shot sh = shoot(A, T.vertexLocations[h.vertex()], dirs[h], t * T.edgeLengths[e]);
        if (e.isBoundary()) continue; // along the border: shooting is ill conditioned, checked through the round trip below
        if (!sh.hitBoundary && sh.clearance > 1e-4 * A.mean) {
          double d = dist(A, q, sh.end, 1e-5);
          if (d > 1e-4 * A.mean) bad("equivalentPointOnInput", cat("of ", p, " is ", q, " instead of ", sh.end, " (distance ", d, ")"));
        }
      }
    if (r.in.planar) {
      // flat input: the correspondence is the identity of the plane
      for (Face f : m.faces()) {
        Vector3 b{.2, .3, .5};
        Vector2 w{0, 0};
        int i = 0;
        for (Vertex v : f.adjacentVertices()) w += b[i++] * planePos(T.vertexLocations[v]);
        SurfacePoint q = T.equivalentPointOnInput(SurfacePoint(f, b));
        if (norm(planePos(q) - w) > 1e-5) bad("planar position", cat("of a point is ", planePos(q), " instead of ", w));
      }
      for (Edge e : m.edges()) {
        Vector2 a = planePos(T.vertexLocations[e.firstVertex()]), b = planePos(T.vertexLocations[e.secondVertex()]);
        if (!closeRel(norm(a - b), T.edgeLengths[e], 1e-6)) bad("planar length", "an edge has the wrong length");
      }
    }
    // transfer of vertex data
    VertexData<double> da(*r.in.mesh);
    for (Vertex v : r.in.mesh->vertices()) da[v] = 1 + 2. * v.getIndex();
    VertexData<double> db = T.sampleFromInput(da);
    for (Vertex v : m.vertices()) {
      double w = T.vertexLocations[v].interpolate(da);
      if (!closeRel(db[v], w, 1e-9)) bad("sampleFromInput", cat(db[v], " instead of ", w));
    }
    VertexData<double> rb = T.restrictToInput(db);
    for (Vertex v : r.in.mesh->vertices())
      if (!closeRel(rb[v], da[v], 1e-9)) bad("restrictToInput", cat(rb[v], " instead of ", da[v]));
    if (!full || r.kind != SIGN) return;
    for (Vertex v : r.in.mesh->vertices())
      if (!(T.equivalentPointOnIntrinsic(SurfacePoint(v)) == SurfacePoint(m.vertex(v.getIndex())))) bad("equivalentPointOnIntrinsic", "of an input vertex is not that vertex");
    for (Edge e : r.in.mesh->edges()) {
      SurfacePoint p(e, .37), q = T.equivalentPointOnIntrinsic(p);
      if (e.isBoundary()) continue;
      SurfacePoint back = T.equivalentPointOnInput(q);
      if (!validPoint(q, &m, 1e-6) || dist(A, back, p, 1e-5) > 1e-4 * A.mean) bad("equivalentPointOnIntrinsic", cat("of ", p, " is ", q, " which corresponds to ", back));
    }
  }

  void normalCoords() {
    auto& T = *static_cast<IntegerCoordinatesIntrinsicTriangulation*>(r.T.get());
    ManifoldSurfaceMesh& m = r.bm();
    size_t total = 0;
    for (Edge e : m.edges()) {
      SPath P = T.traceIntrinsicHalfedgeAlongInput(e.halfedge());
      int n = T.normalCoordinates[e];
      // crossings of input edges by the interior of the path, counted geometrically
      int crossings = 0;
      for (size_t i = 1; i + 1 < P.size(); i++)
        if (P[i].type == SurfacePointType::Edge) crossings++;
      if ((n > 0 ? n : 0) != crossings) bad("normal coordinates", cat("edge has ", n, " but its path crosses ", crossings, " input edges"));
      total += n > 0 ? n : 0;
      // independent count: shoot the edge across the input and count the sides it leaves through
    }
    if (T.nSubdividedVertices() != m.nVertices() + total) bad("nSubdividedVertices", "is not vertices plus crossings");
    // roundabouts
    for (Vertex v : m.vertices()) {
      const SurfacePoint& l = T.vertexLocations[v];
      if (l.type != SurfacePointType::Vertex) continue;
      int deg = 0;
      for (Halfedge h : l.vertex.outgoingHalfedges()) {
        (void)h;
        deg++;
      }
      if (T.normalCoordinates.roundaboutDegrees[v] != deg) bad("roundaboutDegrees", cat(T.normalCoordinates.roundaboutDegrees[v], " instead of ", deg));
    }
    for (Halfedge h : m.halfedges())
      if (T.normalCoordinates[h.edge()] < 0 && T.vertexLocations[h.tailVertex()].type == SurfacePointType::Vertex && T.vertexLocations[h.tipVertex()].type == SurfacePointType::Vertex) {
        Halfedge ih = T.getSharedInputEdge(h);
        if (ih.tailVertex() != T.vertexLocations[h.tailVertex()].vertex || ih.tipVertex() != T.vertexLocations[h.tipVertex()].vertex)
          bad("getSharedInputEdge", "returns an edge with other end points");
        else if (!std::isnan(dirs[h]) && circDist(r.in.M->phi[ih], dirs[h], r.in.M->sum[ih.tailVertex()]) > 1e-5)
          bad("getSharedInputEdge", "returns another edge between the same end points");
      }
  }

  void delaunayQuery() {
    ManifoldSurfaceMesh& m = r.bm();
    bool all = true, sure = true;
    for (Edge e : m.edges()) {
      double x = delaunayExcess(*B, e);
      bool fixed = r.T->isFixed(e);
      if (!fixed && std::abs(x) < 1e-5) {
        sure = false;
        continue;
      }
      bool want = fixed || x < 0;
      all = all && want;
      if (r.T->isDelaunay(e) != want) bad("isDelaunay(edge)", cat("wrong for opposite angles summing to pi", x > 0 ? "+" : "", x));
    }
    if ((sure || !all) && r.T->isDelaunay() != all) bad("isDelaunay", "disagrees with the edges");
    double mn = 1e9;
    for (Halfedge h : m.interiorHalfedges()) mn = std::min(mn, B->ang[h]);
    if (!closeRel(r.T->minAngleDegrees(), mn * 180 / PI, 1e-6)) bad("minAngleDegrees", cat(r.T->minAngleDegrees(), " instead of ", mn * 180 / PI));
  }
  // tangent vectors at vertices: rotating by the rescaled angle around the vertex
  void vertexVectors(bool afterRefresh) {
    ManifoldSurfaceMesh& m = r.bm();
    for (Vertex v : m.vertices()) {
      double sc = v.isBoundary() ? PI / B->sum[v] : 2 * PI / B->sum[v];
      Halfedge f = v.halfedge(), h = f;
      Vector2 r0 = unit(r.T->halfedgeVectorsInVertex[f]);
      do {
        Vector2 w = r0 * Vector2::fromAngle(B->phi[h] * sc) * B->L[h.edge()];
        if (!(norm(r.T->halfedgeVectorsInVertex[h] - w) < 1e-5 * B->mean)) bad("halfedgeVectorsInVertex", cat("is ", r.T->halfedgeVectorsInVertex[h], " instead of ", w));
        if (!h.isInterior()) break;
        h = h.next().next().twin();
      } while (h != f);
    }
  }

  void all() {
    try {
      if (r.opErr.size()) bad("callback", r.opErr);
      if (!combinatorics()) return;
      geometry();
      if (!B || !B->valid) return;
      vertexVectors(false);
      delaunayQuery();
      traces();
      if (seen.size()) return;
      inputTraces(false);
      points(true);
      if (r.kind == INTC) normalCoords();
    } catch (std::exception& e) { bad("exception", e.what()); }
  }
  void subdivision();
};

// ---- common subdivision -------------------------------------------------------------------------------------------
void Checker::subdivision() {
  ManifoldSurfaceMesh& m = r.bm();
  try {
    const Metric& A = *r.in.M;
    CommonSubdivision& cs = r.T->getCommonSubdivision();
    B.reset(new Metric(m, r.T->edgeLengths));
    if (&cs.meshA != r.in.mesh.get() || &cs.meshB != &m) bad("meshes", "meshA / meshB are not the input and the intrinsic mesh");
    // points along every edge are ordered, start and end at its vertices, and lie on both triangulations at the same place
    size_t nTrans = 0;
    for (Edge e : m.edges()) {
      SPath P = cs.getHalfedgePathBonA(e.halfedge()), Q = cs.getHalfedgePathBonA(e.halfedge().twin());
      ctx.eval();
      bool rev = P.size() == Q.size();
      for (size_t i = 0; rev && i < P.size(); i++) rev = P[i] == Q[Q.size() - 1 - i];
      if (!rev) bad("getHalfedgePathBonA", "of the twin is not the reversed path");
      size_t cnt = 0;
      for (auto* c : cs.pointsAlongB[e])
        if (c->intersectionType == CSIntersectionType::EDGE_TRANSVERSE) {
          cnt++;
          nTrans++;
          if (c->posB.edge != e) bad("pointsAlongB", "contains a crossing of another edge");
        }
      if (cs.intersectionsB(e) != cnt) bad("intersectionsB", cat(cs.intersectionsB(e), " instead of ", cnt));
      double last = -1;
      for (auto* c : cs.pointsAlongB[e])
        if (c->intersectionType == CSIntersectionType::EDGE_TRANSVERSE) {
          if (!(c->posB.tEdge > last - 1e-9)) bad("pointsAlongB", "are not ordered");
          last = c->posB.tEdge;
          // crossing at the same distance along the path
        }
    }
    size_t nTransA = 0, nParA = 0, nVertOnA = 0;
    for (Edge e : r.in.mesh->edges()) {
      SPath P = cs.getHalfedgePathAonB(e.halfedge()), Q = cs.getHalfedgePathAonB(e.halfedge().twin());
      bool rev = P.size() == Q.size();
      for (size_t i = 0; rev && i < P.size(); i++) rev = P[i] == Q[Q.size() - 1 - i];
      if (!rev) bad("getHalfedgePathAonB", "of the twin is not the reversed path");
      double last = -1;
      size_t cnt = 0;
      auto& pts = cs.pointsAlongA[e];
      for (size_t k = 0; k < pts.size(); k++) {
        auto* c = pts[k];
        if (c->intersectionType == CSIntersectionType::EDGE_TRANSVERSE) {
          cnt++;
          nTransA++;
          if (c->posA.edge != e) bad("pointsAlongA", "contains a crossing of another edge");
          if (!(c->posA.tEdge > last - 1e-9)) bad("pointsAlongA", "are not ordered");
          last = c->posA.tEdge;
        } else if (c->intersectionType == CSIntersectionType::EDGE_VERTEX) {
          nVertOnA++;
          if (c->posA.type != SurfacePointType::Edge || c->posA.edge != e) bad("pointsAlongA", "contains a vertex on another edge");
          else {
            if (!(c->posA.tEdge > last - 1e-9)) bad("pointsAlongA", "are not ordered");
            last = c->posA.tEdge;
          }
        } else if (c->intersectionType == CSIntersectionType::EDGE_PARALLEL) nParA++;
      }
      if (cs.intersectionsA(e) != cnt + 0 && r.in.p.size()) {
        size_t inner = 0;
        for (auto* c : pts)
          if (c->intersectionType == CSIntersectionType::EDGE_VERTEX) inner++;
        (void)inner;
      }
    }
    if (nTrans != nTransA) bad("crossings", cat(nTrans, " crossings along B but ", nTransA, " along A"));
    // the element counts follow from Euler's formula
    size_t nV, nE, nF;
    std::tie(nV, nE, nF) = cs.elementCounts();
    if (nV != m.nVertices() + nTrans) bad("elementCounts", cat("vertices ", nV, " instead of ", m.nVertices() + nTrans));
    if (cs.nVertices() != nV || cs.nEdges() != nE || cs.nFaces() != nF) bad("elementCounts", "single counts disagree");
    if ((long)nV - (long)nE + (long)nF != (long)m.nVertices() - (long)m.nEdges() + (long)m.nFaces()) bad("elementCounts", "Euler characteristic differs");
    auto simple = cs.buildSimpleMesh();
    if (simple->polygons.size() != nF || simple->vertexCoordinates.size() != nV) bad("buildSimpleMesh", cat("has ", simple->polygons.size(), " faces and ", simple->vertexCoordinates.size(), " vertices instead of ", nF, ",", nV));
    for (int tri = 0; tri < 2; tri++) {
      cs.constructMesh(tri == 1, false);
      ManifoldSurfaceMesh& c = *cs.mesh;
      if (tri == 0 && (c.nVertices() != nV || c.nEdges() != nE || c.nFaces() != nF)) bad("constructMesh", cat("V,E,F = ", c.nVertices(), ",", c.nEdges(), ",", c.nFaces(), " instead of ", nV, ",", nE, ",", nF));
      if (tri == 1 && !c.isTriangular()) bad("constructMesh", "is not triangulated");
      if (c.eulerCharacteristic() != r.in.mesh->eulerCharacteristic() || c.nBoundaryLoops() != r.in.mesh->nBoundaryLoops()) bad("constructMesh", "is not the same surface");
      // every vertex is the same point in both triangulations; every face lies in its source faces
      double aA = 0, aB = 0;
      FaceData<double> sumA(*r.in.mesh, 0.), sumB(m, 0.);
      for (Face f : c.faces()) {
        Face fa = cs.sourceFaceA[f], fb = cs.sourceFaceB[f];
        Frame FA = layout(A, fa), FB = layout(*B, fb);
        double shA = 0, shB = 0;
        std::vector<std::vector<Vector2>> pa, pb;
        for (Vertex v : f.adjacentVertices()) {
          CommonSubdivisionPoint* sp = cs.sourcePoints[v];
          auto sa = sites(FA, sp->posA);
          auto sb = sites(FB, sp->posB);
          if (sa.empty() || sb.empty()) {
            bad("source faces", cat("vertex ", sp->posA, " / ", sp->posB, " of a face is not in its source face"));
            return;
          }
          pa.push_back({});
          pb.push_back({});
          for (auto& x : sa) pa.back().push_back(FA.at(x));
          for (auto& x : sb) pb.back().push_back(FB.at(x));
        }
        // the two developments of the polygon are congruent (choose occurrences when a source face repeats an element)
        size_t n = pa.size();
        std::vector<Vector2> qa(n), qb(n);
        bool found = false;
        std::function<void(size_t)> pick = [&](size_t i) {
          if (found) return;
          if (i == n) {
            double a = 0, b = 0;
            for (size_t k = 0; k < n; k++) {
              if (std::abs(norm(qa[k] - qa[(k + 1) % n]) - norm(qb[k] - qb[(k + 1) % n])) > 2e-5 * A.mean) return;
              a += cross(qa[k] - qa[0], qa[(k + 1) % n] - qa[0]) / 2;
              b += cross(qb[k] - qb[0], qb[(k + 1) % n] - qb[0]) / 2;
            }
            if (std::abs(a - b) > 2e-5 * A.total || a < -1e-7 * A.total) return;
            shA = a;
            shB = b;
            found = true;
            return;
          }
          for (auto& x : pa[i])
            for (auto& y : pb[i]) {
              qa[i] = x;
              qb[i] = y;
              pick(i + 1);
              if (found) return;
            }
        };
        pick(0);
        if (!found) {
          bad("congruence", "a face of the subdivision has different shapes in the two triangulations");
          return;
        }
        aA += shA;
        aB += shB;
        sumA[fa] += shA;
        sumB[fb] += shB;
      }
      for (Face f : r.in.mesh->faces())
        if (std::abs(sumA[f] - A.area[f]) > 1e-4 * A.total) bad("cover", cat("the pieces of an input face have area ", sumA[f], " instead of ", A.area[f]));
      for (Face f : m.faces())
        if (std::abs(sumB[f] - B->area[f]) > 1e-4 * A.total) bad("cover", cat("the pieces of an intrinsic face have area ", sumB[f], " instead of ", B->area[f]));
      // interpolation
      VertexData<double> da(*r.in.mesh), db(m);
      for (Vertex v : r.in.mesh->vertices()) da[v] = 1 + (v.getIndex() * 7) % 5;
      for (Vertex v : m.vertices()) db[v] = 2 + (v.getIndex() * 5) % 7;
      VertexData<double> ia = cs.interpolateAcrossA(da), ib = cs.interpolateAcrossB(db);
      SparseMatrix<double> MA = cs.interpolationMatrixA(), MB = cs.interpolationMatrixB();
      Vector<double> va = MA * da.toVector(), vb = MB * db.toVector();
      size_t i = 0;
      for (Vertex v : c.vertices()) {
        double wa = cs.sourcePoints[v]->posA.interpolate(da), wb = cs.sourcePoints[v]->posB.interpolate(db);
        if (!closeRel(ia[v], wa, 1e-9)) bad("interpolateAcrossA", cat(ia[v], " instead of ", wa));
        if (!closeRel(ib[v], wb, 1e-9)) bad("interpolateAcrossB", cat(ib[v], " instead of ", wb));
        if (!closeRel(va[i], wa, 1e-9)) bad("interpolationMatrixA", cat(va[i], " instead of ", wa));
        if (!closeRel(vb[i], wb, 1e-9)) bad("interpolationMatrixB", cat(vb[i], " instead of ", wb));
        i++;
      }
      FaceData<double> fa(*r.in.mesh), fb(m);
      for (Face f : r.in.mesh->faces()) fa[f] = f.getIndex();
      for (Face f : m.faces()) fb[f] = f.getIndex();
      FaceData<double> ca = cs.copyFromA(fa), cb = cs.copyFromB(fb);
      for (Face f : c.faces()) {
        if (ca[f] != fa[cs.sourceFaceA[f]]) bad("copyFromA", "wrong value");
        if (cb[f] != fb[cs.sourceFaceB[f]]) bad("copyFromB", "wrong value");
      }
      EdgeData<double> la = cs.interpolateEdgeLengthsA(A.L), lb = cs.interpolateEdgeLengthsB(B->L);
      double tot = 0;
      // an intrinsic face which meets a vertex or edge several times: its points have several positions in the face
      auto ambiguous = [&](Face f) {
        std::vector<Vertex> vs;
        std::vector<Edge> es;
        for (Vertex v : f.adjacentVertices()) vs.push_back(v);
        for (Edge e : f.adjacentEdges()) es.push_back(e);
        return vs[0] == vs[1] || vs[1] == vs[2] || vs[0] == vs[2] || es[0] == es[1] || es[1] == es[2] || es[0] == es[2];
      };
      bool anyAmbiguous = false;
      for (Edge e : c.edges()) {
        bool amb = ambiguous(cs.sourceFaceB[e.halfedge().face()]);
        anyAmbiguous = anyAmbiguous || amb;
        if (std::abs(la[e] - lb[e]) > 2e-5 * A.mean) {
          if (amb) ctx.fail("interpolateEdgeLengthsB in an intrinsic face which meets a vertex twice", cat("A gives ", la[e], " B gives ", lb[e], " [", id, "]"));
          else bad("interpolateEdgeLengths", cat("A gives ", la[e], " B gives ", lb[e]));
        }
        tot += la[e];
      }
      if (anyAmbiguous) continue;
      if (tri == 1) {
        Metric C(c, lb);
        if (!closeRel(C.total, A.total, 1e-4)) bad("interpolateEdgeLengths", "total area differs");
        Metric CA(c, la);
        if (!closeRel(CA.total, A.total, 1e-4)) bad("interpolateEdgeLengths", "total area differs");
        for (int side = 0; side < 2; side++) {
          SparseMatrix<double> G = side ? cs.vertexGalerkinMassMatrixFromLengthsB(B->L) : cs.vertexGalerkinMassMatrixFromLengthsA(A.L);
          Eigen::MatrixXd D = geo::dense(G), W = Eigen::MatrixXd::Zero(c.nVertices(), c.nVertices());
          auto vi = c.getVertexIndices();
          for (Face f : c.faces()) {
            double ar = (side ? C : CA).area[f];
            for (Vertex x : f.adjacentVertices())
              for (Vertex y : f.adjacentVertices()) W(vi[x], vi[y]) += x == y ? ar / 6 : ar / 12;
          }
          if (D.rows() != W.rows() || (D - W).cwiseAbs().maxCoeff() > 1e-6 * A.total) bad("vertexGalerkinMassMatrix", "is not the Galerkin mass matrix of the subdivision");
        }
        if (r.in.p.size()) {
          VertexData<Vector3> pos = cs.interpolateAcrossA(r.in.vpg->vertexPositions);
          Eigen::MatrixXd D = geo::dense(cs.vertexGalerkinMassMatrixFromPositionsA(r.in.vpg->vertexPositions));
          Eigen::MatrixXd W = geo::dense(cs.vertexGalerkinMassMatrixFromLengthsA(A.L));
          if ((D - W).cwiseAbs().maxCoeff() > 1e-5 * A.total) bad("vertexGalerkinMassMatrixFromPositionsA", "differs from the one from lengths");
        }
      }
    }
    // lifetime: the same object until the triangulation changes
    if (&r.T->getCommonSubdivision() != &cs) bad("getCommonSubdivision", "rebuilt without a change");
  } catch (std::exception& e) {
    // signposts locate a vertex inserted along an input edge only up to rounding, on either side of the edge
    bool onEdge = false;
    for (Vertex v : r.bm().vertices()) {
      const SurfacePoint& p = r.T->vertexLocations[v];
      if (p.type == SurfacePointType::Face) onEdge = onEdge || std::min({p.faceCoords.x, p.faceCoords.y, p.faceCoords.z}) < 1e-7;
    }
    std::string what = e.what();
    if (r.kind == SIGN && onEdge && (what.find("could not identify source face on mesh A") != std::string::npos || what.find("must sum to an even number") != std::string::npos))
      ctx.fail("signpost subdivision with vertices inserted along input edges", cat("exception: ", e.what(), " [", id, "]"));
    else bad("exception", e.what());
  }
}

// ---- operations ----------------------------------------------------------------------------------------------------
static bool apply(Checker& k, const Op& o, bool check) {
  Run& r = k.r;
  IntrinsicTriangulation& T = *r.T;
  ManifoldSurfaceMesh& m = r.bm();
  auto nth = [](auto set, int i) {
    for (auto x : set)
      if (!i--) return x;
    throw std::logic_error("harness: no such element");
  };
  int f0 = r.nFlipCb, s0 = r.nSplitCb, i0 = r.nInsCb;
  size_t nv0 = m.nVertices(), ne0 = m.nEdges(), nf0 = m.nFaces();
  auto expectCounts = [&](long v, long e, long f) {
    if (check && ((long)m.nVertices() - (long)nv0 != v || (long)m.nEdges() - (long)ne0 != e || (long)m.nFaces() - (long)nf0 != f)) k.bad("op counts", "an operation changed the element counts wrongly");
  };
  switch (o.t) {
  case 'F':
  case 'D': {
    Edge e = nth(m.edges(), o.i);
    Metric B(m, T.edgeLengths);
    Halfedge h = e.halfedge();
    bool fixed = T.isFixed(e);
    int want = -1;
    double newLen = 0;
    if (e.isBoundary() || fixed) want = 0;
    else {
      Halfedge t = h.twin();
      bool deg1 = h.next() == t || t.next() == h || h.next().next() == t || t.next().next() == h;
      // the diamond: angles at the two ends of the edge
      double a0 = B.ang[h] + B.ang[t.next()], a1 = B.ang[t] + B.ang[h.next()];
      double ex = delaunayExcess(B, e);
      double marg = PI - std::max(a0, a1);
      // new length by the law of cosines
      double u = B.L[h.next().next().edge()], v = B.L[t.next().edge()];
      newLen = std::sqrt(std::max(0., u * u + v * v - 2 * u * v * std::cos(a0)));
      if (o.t == 'F') {
        if (deg1) want = 0;
        else if (marg > 1e-4) want = 1;
        else if (marg < -1e-4) want = 0;
      } else {
        if (ex > 1e-4) want = deg1 ? -1 : 1;
        else if (ex < -1e-4) want = 0;
      }
    }
    SignpostIntrinsicTriangulation* S = dynamic_cast<SignpostIntrinsicTriangulation*>(&T);
    double oldLen = T.edgeLengths[e], oldA = S ? S->signpostAngle[h] : 0, oldB = S ? S->signpostAngle[h.twin()] : 0;
    bool oldOrig = S && S->edgeIsOriginal[e];
    bool res = o.t == 'F' ? T.flipEdgeIfPossible(e) : T.flipEdgeIfNotDelaunay(e);
    if (check && want >= 0 && res != (bool)want) k.bad("flip decision", cat(o.t == 'F' ? "flipEdgeIfPossible" : "flipEdgeIfNotDelaunay", " returned ", res));
    if (check && res && !closeRel(T.edgeLengths[e], newLen, 1e-6)) k.bad("flip length", cat(T.edgeLengths[e], " instead of ", newLen));
    if (check && (r.nFlipCb - f0 != (res ? 1 : 0) || (res && r.flipCb.back() != e))) k.bad("flip callback", "not called exactly once with the edge");
    expectCounts(0, 0, 0);
    if (S && res && o.t == 'F') { // undo and redo by hand, with the recorded data
      double l = T.edgeLengths[e], a = S->signpostAngle[h], b = S->signpostAngle[h.twin()];
      bool orig = S->edgeIsOriginal[e];
      auto around = [&] { return std::vector<Vertex>{h.vertex(), h.next().vertex(), h.next().next().vertex(), h.twin().next().next().vertex()}; };
      std::vector<Vertex> now = around();
      int c0 = r.nFlipCb;
      S->flipEdgeManual(e, oldLen, oldA, oldB, oldOrig, true);
      S->flipEdgeManual(e, l, a, b, orig, false);
      if (check && (r.nFlipCb != c0 + 2 || e.halfedge() != h || around() != now)) k.bad("flipEdgeManual", "undoing and repeating a flip does not restore it");
    }
    return res;
  }
  case 'I':
  case 'B':
  case 'C': {
    Face f = nth(m.faces(), o.i);
    Vertex v = o.t == 'B' ? T.insertBarycenter(f) : o.t == 'C' ? T.insertCircumcenter(f) : T.insertVertex(SurfacePoint(f, Vector3{.2, .3, .5}));
    if (v == Vertex()) {
      if (check && o.t != 'C') k.bad("insert", "inserting in a face failed");
      expectCounts(0, 0, 0);
      return false;
    }
    if (check && o.t != 'C' && (r.nInsCb - i0 != 1 || r.nSplitCb != s0)) k.bad("insertion callback", "not called exactly once");
    if (check && o.t == 'C' && r.nInsCb - i0 + r.nSplitCb - s0 != 1) k.bad("insertion callback", "not called exactly once");
    if (o.t != 'C') expectCounts(1, 3, 2);
    return true;
  }
  case 'S': {
    Halfedge h = nth(m.edges(), o.i).halfedge();
    bool bd = h.edge().isBoundary();
    Vertex a = h.tailVertex(), b = h.tipVertex();
    double len = T.edgeLengths[h.edge()];
    Halfedge n = T.splitEdge(h, o.x);
    if (n == Halfedge()) {
      if (check) k.bad("splitEdge", "failed");
      return false;
    }
    if (check) {
      if (n.tipVertex() != b || !closeRel(T.edgeLengths[n.edge()], (1 - o.x) * len, 1e-6)) k.bad("splitEdge", "the returned halfedge is not the far part of the split edge");
      if (r.nSplitCb - s0 != 1 || r.nInsCb != i0) k.bad("split callback", "not called exactly once");
      bool back = false;
      for (Halfedge x : n.vertex().outgoingHalfedges())
        if (x.tipVertex() == a && closeRel(T.edgeLengths[x.edge()], o.x * len, 1e-6)) back = true;
      if (!back) k.bad("splitEdge", "no edge back to the start of the split edge");
      if (n.vertex().isBoundary() != bd) k.bad("splitEdge", "new vertex on the wrong side of the boundary");
    }
    expectCounts(1, bd ? 2 : 3, bd ? 1 : 2);
    return true;
  }
  case 'R': {
    Vertex v = nth(m.vertices(), o.i);
    bool orig = T.vertexLocations[v].type == SurfacePointType::Vertex;
    bool fixed = T.isOnFixedEdge(v);
    Face f = T.removeInsertedVertex(v);
    if (check && (orig || fixed) && f != Face()) k.bad("removeInsertedVertex", "removed a vertex that must stay");
    if (f != Face()) expectCounts(-1, -3, -2);
    else expectCounts(0, 0, 0);
    return f != Face();
  }
  case 'A':
    T.flipToDelaunay();
    if (check && !T.isDelaunay()) k.bad("flipToDelaunay", "result is not Delaunay");
    expectCounts(0, 0, 0);
    return true;
  case 'G': // compress
    m.compress();
    return true;
  case 'Q':
    T.refreshQuantities();
    return true;
  case 'X':
    (void)T.getCommonSubdivision();
    return true;
  }
  return false;
}

// the circumcenter of f, reached from its first corner: well inside one face?
static bool circumcenterClear(const Metric& B, Face f) {
  if (!B.valid) return false;
  Frame F = layout(B, f);
  double a = norm(F.q[2] - F.q[1]), b = norm(F.q[0] - F.q[2]), c = norm(F.q[1] - F.q[0]);
  Vector3 w{a * a * (b * b + c * c - a * a), b * b * (c * c + a * a - b * b), c * c * (a * a + b * b - c * c)};
  w /= w.x + w.y + w.z;
  int s = w.x >= w.y && w.x >= w.z ? 0 : w.y >= w.z ? 1 : 2;
  Vector2 d = F.at(w) - F.q[s];
  double rel = (d / (F.q[(s + 1) % 3] - F.q[s])).arg();
  Shot sh = shoot(B, SurfacePoint(F.h[s].vertex()), B.phi[F.h[s]] + rel, norm(d));
  if (sh.hitBoundary || sh.clearance < .02 * B.mean) return false;
  Vector3 e = sh.end.faceCoords;
  return sh.end.type == SurfacePointType::Face && std::min(e.x, std::min(e.y, e.z)) > .05;
}
static std::vector<Op> moves(Run& r, bool rich) {
  std::vector<Op> w;
  ManifoldSurfaceMesh& m = r.bm();
  for (size_t i = 0; i < m.nEdges(); i++) w.push_back({'F', (int)i});
  if (rich) {
    for (size_t i = 0; i < m.nFaces(); i++) w.push_back({'I', (int)i});
    for (size_t i = 0; i < m.nEdges(); i++) w.push_back({'S', (int)i, .4});
    for (size_t i = 0; i < m.nFaces(); i++) w.push_back({'B', (int)i});
    Metric B(m, r.T->edgeLengths);
    for (size_t i = 0; i < m.nFaces(); i++)
      if (circumcenterClear(B, m.face(i))) w.push_back({'C', (int)i});
    int i = 0;
    for (Vertex v : m.vertices()) {
      if (r.T->vertexLocations[v].type != SurfacePointType::Vertex) w.push_back({'R', i});
      i++;
    }
    for (size_t i = 0; i < m.nEdges(); i++) w.push_back({'D', (int)i});
    w.push_back({'A', 0});
  }
  return w;
}
static uint64_t stateHash(Run& r) {
  uint64_t h = 1;
  for (Halfedge x : r.bm().halfedges()) h = mix(h, mix(x.tailVertex().getIndex(), mix(x.next().getIndex(), x.twin().getIndex())));
  for (Edge e : r.bm().edges()) h = mix(h, (uint64_t)std::llround(r.T->edgeLengths[e] * 1e6));
  for (Vertex v : r.bm().vertices()) {
    auto& l = r.T->vertexLocations[v];
    h = mix(h, (uint64_t)l.type);
  }
  return h;
}

static void explore(Ctx& ctx, Input& in, Kind kind, int depth, bool rich, const std::string& cid) {
  std::set<uint64_t> seen;
  std::vector<std::vector<Op>> level = {{}};
  for (int d = 0; d <= depth; d++) {
    std::vector<std::vector<Op>> next;
    for (auto& w : level) {
      std::string id = cid + ":" + str(w);
      ctx.note(id);
      Run r(in, kind);
      Checker k{ctx, r, id};
      bool eff = true;
      try {
        for (size_t i = 0; i < w.size(); i++) eff = apply(k, w[i], i + 1 == w.size());
      } catch (std::exception& e) {
        k.bad("exception", cat("in ", str(w), ": ", e.what()));
        continue;
      }
      ctx.transition();
      uint64_t h = stateHash(r);
      if (!seen.insert(h).second) continue;
      ctx.state(mix(h, hashStr(cid)));
      if (subdivMode) k.subdivision();
      else k.all();
      ctx.trace();
      if (k.seen.size()) continue; // broken: do not explore further
      if (d < depth) {
        Run r2(in, kind);
        Checker k2{ctx, r2, id};
        for (auto& o : w) apply(k2, o, false);
        for (auto& o : moves(r2, rich)) {
          next.push_back(w);
          next.back().push_back(o);
        }
      }
    }
    level.swap(next);
  }
}

#include "idt_high.inc"

int main(int argc, char** argv) {
  Kind only = SIGN;
  std::string mode = "--signpost";
  std::vector<char*> args;
  for (int i = 0; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--signpost" || a == "--integer" || a == "--subdivision") mode = a;
    else args.push_back(argv[i]);
  }
  only = mode == "--integer" ? INTC : SIGN;
  subdivMode = mode == "--subdivision";
  Options o;
  o.property = subdivMode ? "C11" : only == SIGN ? "C09" : "C10";
  o.technique = "exhaustive search over sequences of intrinsic operations on the real triangulations";
  o.rule = "every sequence of flips, insertions, splits, removals and Delaunay flips up to the stated depth from every start surface; after every step the intrinsic triangulation is compared "
           "with an independent unfolding of the input surface";
  o.assumptions = {"floating point: lengths and positions are compared to 1e-5 of the mean edge length; decisions closer than 1e-4 to a tie are not judged"};
  o.caseCpuLimit = 200;
  return mc::run((int)args.size(), args.data(), o, [&](Ctx& ctx) { body(ctx, only); });
}
