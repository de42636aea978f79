// C13: exact polyhedral geodesics (MMP).  Every source vertex, points on edges and in faces, pairs of sources, distance
// limits and stop points on every small surface; every answer compared with exhaustive unfolding.
#include "exact.h"
#include "suite.h"
#include "geometrycentral/surface/exact_geodesics.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using geod::Metric;

// conversions between tangent spaces and absolute angles of a Metric
static Vector2 tangent(const Metric& M, const SurfacePoint& p, double a) {
  if (p.type == SurfacePointType::Vertex) a *= (M.boundary(p.vertex) ? PI : 2 * PI) / M.sum[p.vertex];
  return Vector2::fromAngle(a);
}
static double absolute(const Metric& M, const SurfacePoint& p, Vector2 v) {
  double a = v.arg();
  if (p.type == SurfacePointType::Vertex) {
    if (M.boundary(p.vertex)) {
      if (a < -PI / 2) a += 2 * PI; // rounding next to the last boundary edge
    } else if (a < 0) a += 2 * PI;
    a *= M.sum[p.vertex] / (M.boundary(p.vertex) ? PI : 2 * PI);
  }
  return a;
}

struct Check {
  Ctx& ctx;
  std::string name;
  SurfaceMesh& mesh;
  IntrinsicGeometryInterface& g;
  const EdgeData<double>& len;
  Metric* M; // manifold meshes only
  bool simplicial = false;
  exact::Exact X;
  std::string id;
  std::set<std::string> seen;
  std::function<SurfacePoint(const SurfacePoint&)> to = [](const SurfacePoint& p) { return p; }; // onto the mesh of X
  Check(Ctx& c, std::string n, SurfaceMesh& m, IntrinsicGeometryInterface& g_, const EdgeData<double>& l, Metric* M_, exact::Exact X_) : ctx(c), name(n), mesh(m), g(g_), len(l), M(M_), X(X_) {}
  std::vector<SurfacePoint> all(std::vector<SurfacePoint> v) {
    for (auto& p : v) p = to(p);
    return v;
  }
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  double tol(double d) { return 2e-5 * (X.mean + d); }
  // shared-face distance on any mesh
  double leg(const SurfacePoint& a, const SurfacePoint& b) {
    double best = X.inf();
    for (size_t f = 0; f < X.nF; f++)
      for (auto& x : X.sites(f, a))
        for (auto& y : X.sites(f, b)) {
          Vector3 d = x - y;
          double l0 = X.L[X.fs[f][0].e], l1 = X.L[X.fs[f][1].e], l2 = X.L[X.fs[f][2].e];
          best = std::min(best, std::sqrt(std::max(0., -(l0 * l0 * d[0] * d[1] + l1 * l1 * d[1] * d[2] + l2 * l2 * d[2] * d[0]))));
        }
    return best;
  }
  void run(const std::vector<SurfacePoint>& src, GeodesicAlgorithmExact& alg, const std::vector<SurfacePoint>& qs, const std::vector<exact::Exact::Reach>& qr) {
    id = name + " sources";
    for (auto& s : src) id += cat(" ", s);
    ctx.note(id);
    ctx.trace();
    std::vector<exact::Exact::Reach> sr;
    std::vector<SurfacePoint> qx = all(qs);
    for (auto& s : src) sr.push_back(X.reach(to(s), qx));
    std::vector<double> D(qs.size(), X.inf());
    std::vector<std::vector<double>> DS(src.size(), D);
    for (size_t k = 0; k < qs.size(); k++)
      for (size_t s = 0; s < src.size(); s++) {
        DS[s][k] = X.combine(sr[s], k, qr[k]);
        D[k] = std::min(D[k], DS[s][k]);
      }
    try {
      alg.propagate(src);
      VertexData<double> dv = alg.getDistanceFunction();
      for (size_t k = 0; k < qs.size(); k++) {
        const SurfacePoint& q = qs[k];
        std::string at = cat(" at ", q);
        ctx.eval();
        ctx.transition();
        double d = alg.getDistance(q);
        if (D[k] >= X.inf() / 2) {
          if (d < GEODESIC_INF / 2) bad("getDistance", cat(d, " for an unreachable point", at));
          ctx.outcome("unreachable");
          continue;
        }
        if (!(std::abs(d - D[k]) < tol(D[k]))) {
          bad("getDistance", cat(d, " instead of ", D[k], at));
          continue;
        }
        if (q.type == SurfacePointType::Vertex) {
          if (dv[q.vertex] != d || alg.getDistance(q.vertex) != d) bad("getDistanceFunction", cat("disagrees with getDistance", at));
        }
        auto cs = alg.closestSource(q);
        if (cs.first >= src.size() || !(std::abs(DS[cs.first][k] - D[k]) < tol(D[k])) || !(std::abs(cs.second - D[k]) < tol(D[k]))) {
          bad("closestSource", cat(cs.first, " at ", cs.second, " instead of distance ", D[k], at));
          continue;
        }
        if (cs.second <= 1e-6 * X.mean) continue;
        if (!simplicial) continue; // faces shared by two points are ambiguous
        double pl = -1;
        std::vector<SurfacePoint> path = alg.traceBack(q, pl);
        if (!(std::abs(pl - D[k]) < tol(D[k]))) bad("traceBack length", cat(pl, " instead of ", D[k], at));
        if (path.size() < 2 || !(path.front() == q)) {
          bad("traceBack", cat("path of ", path.size(), " points", at));
          continue;
        }
        double sum = 0;
        bool valid = true;
        int corners = 0;
        for (size_t i = 0; i < path.size(); i++) {
          if (!geod::validPoint(path[i], &mesh)) valid = false;
          if (valid && i) sum += leg(path[i - 1], path[i]);
          if (valid && i && i + 1 < path.size() && path[i].type == SurfacePointType::Vertex) corners++;
        }
        bool atSource = false;
        for (size_t s = 0; s < src.size(); s++)
          if (valid && leg(path.back(), src[s]) < 1e-9 * X.mean && std::abs(DS[s][k] - D[k]) < tol(D[k])) atSource = true;
        if (!valid) bad("traceBack", cat("has an invalid point", at));
        else if (!atSource) bad("traceBack", cat("ends at ", path.back(), " which is not a closest source", at));
        else if (!(std::abs(sum - D[k]) < tol(D[k]) * 3)) bad("traceBack", cat("has length ", sum, " instead of ", D[k], at));
        ctx.outcome(cat("path of ", std::min<size_t>(path.size(), 8), " points through ", corners, " vertices"));
        if (!M || !valid || !simplicial) continue;
        if (D[k] < .02 * X.mean) continue;
        // gradient: walking against it gets closer at unit speed (up to the first vertex on the way)
        Vector2 gr = alg.getDistanceGradient(q);
        double step = std::min(.01 * X.mean, D[k] / 4);
        if (!(std::abs(norm(gr) - 1) < 1e-5)) bad("getDistanceGradient", cat("has norm ", norm(gr), at));
        else {
          geod::Shot s = geod::shoot(*M, q, absolute(*M, q, -gr), step);
          if (!s.hitBoundary) {
            double dn = X.inf();
            for (auto& z : src) dn = std::min(dn, X.distance(s.end, z));
            if (!(std::abs(D[k] - dn - step) < .02 * step)) bad("getDistanceGradient", cat("a step of ", step, " against it changes the distance by ", dn - D[k], at));
          }
        }
        // logarithm: its norm is the distance, walking along it leaves the source towards the point
        size_t tied = 0;
        for (auto& ds : DS) tied += ds[k] < D[k] + 1e-3 * X.mean;
        if (tied > 1) continue;
        const SurfacePoint& z = src[cs.first];
        Vector2 lg = alg.getLog(q);
        if (!(std::abs(norm(lg) - D[k]) < tol(D[k]))) bad("getLog", cat("has norm ", norm(lg), " instead of ", D[k], at));
        else {
          geod::Shot s = geod::shoot(*M, z, absolute(*M, z, lg), step);
          if (!s.hitBoundary) {
            double dn = X.distance(s.end, q);
            if (!(std::abs(D[k] - dn - step) < .02 * step)) bad("getLog", cat("a step of ", step, " along it changes the distance to the point by ", dn - D[k], at));
          }
        }
      }
      if (src.size() == 1 && src[0].type == SurfacePointType::Vertex) {
        VertexData<double> one = exactGeodesicDistance(mesh, g, src[0].vertex);
        for (Vertex v : mesh.vertices())
          if (!(std::abs(one[v] - dv[v]) <= 1e-12 + 1e-12 * std::abs(dv[v]))) bad("exactGeodesicDistance", "differs from the stateful solver");
      }
      // limits: everything within the distance, and every stop point, is exact; nothing is ever too close
      std::vector<double> lim{.4 * X.mean, 1.3 * X.mean, 2.5 * X.mean};
      for (double m : lim) {
        alg.propagate(src, m);
        for (size_t k = 0; k < qs.size(); k++) {
          if (qs[k].type != SurfacePointType::Vertex) continue;
          double d = alg.getDistance(qs[k]);
          ctx.eval();
          if (d < D[k] - tol(D[k])) bad("max_propagation_distance", cat("distance ", d, " below ", D[k], " at ", qs[k]));
          if (D[k] < m - tol(D[k]) && !(std::abs(d - D[k]) < tol(D[k]))) bad("max_propagation_distance", cat(d, " instead of ", D[k], " within the limit ", m, " at ", qs[k]));
        }
      }
      for (size_t k = 0; k < qs.size(); k += 1 + qs.size() / 7) {
        if (D[k] >= X.inf() / 2) continue;
        alg.propagate(src, GEODESIC_INF, std::vector<SurfacePoint>{qs[k]});
        double d = alg.getDistance(qs[k]);
        ctx.eval();
        if (!(std::abs(d - D[k]) < tol(D[k]))) bad("stop_points", cat(d, " instead of ", D[k], " at the stop point ", qs[k]));
      }
    } catch (std::exception& e) { bad("exception", e.what()); }
  }
};

// a face point which lies on an edge up to rounding
static SurfacePoint snap(const SurfacePoint& p) {
  if (p.type != SurfacePointType::Face) return p;
  Halfedge he = p.face.halfedge();
  for (int i = 0; i < 3; i++, he = he.next())
    if (std::abs(p.faceCoords[(i + 2) % 3]) < 1e-7) return SurfacePoint(he, p.faceCoords[(i + 1) % 3] / (p.faceCoords[i] + p.faceCoords[(i + 1) % 3]));
  return p;
}

static void surfaceCase(Ctx& ctx, const std::string& name, SurfaceMesh& mesh, IntrinsicGeometryInterface& g, const EdgeData<double>& len, Metric* M, bool th, const exact::Exact* other = nullptr, std::function<SurfacePoint(const SurfacePoint&)> to = nullptr) {
  ctx.state(hashStr(name));
  Check C(ctx, name, mesh, g, len, M, other ? *other : exact::Exact(mesh, len));
  if (to) C.to = to;
  // directions at a point are unambiguous when two elements share at most one face corner pair
  std::set<std::vector<size_t>> tri;
  C.simplicial = !other;
  for (Face f : mesh.faces()) {
    std::vector<size_t> t;
    for (Vertex v : f.adjacentVertices()) t.push_back(v.getIndex());
    std::sort(t.begin(), t.end());
    if (std::unique(t.begin(), t.end()) != t.end() || !tri.insert(t).second) C.simplicial = false;
  }
  std::set<std::pair<size_t, size_t>> es;
  for (Edge e : mesh.edges())
    if (!es.insert(std::minmax(e.firstVertex().getIndex(), e.secondVertex().getIndex())).second) C.simplicial = false;
  std::vector<SurfacePoint> qs;
  for (Vertex v : mesh.vertices()) qs.push_back(SurfacePoint(v));
  size_t nv = qs.size();
  size_t i = 0;
  for (Edge e : mesh.edges()) {
    if (i++ % (th ? 1 : 2) == 0) qs.push_back(SurfacePoint(e, .37));
  }
  for (Face f : mesh.faces())
    if (i++ % (th ? 1 : 2) == 0) qs.push_back(SurfacePoint(f, Vector3{.25, .6, .15}));
  std::vector<exact::Exact::Reach> qr;
  for (auto& q : qs) qr.push_back(C.X.reach(C.to(q), {}));
  ctx.transition(C.X.windows);
  std::unique_ptr<GeodesicAlgorithmExact> alg;
  size_t k = 0;
  auto go = [&](const std::vector<SurfacePoint>& s) {
    if (!alg || k++ % 3 == 2) alg.reset(new GeodesicAlgorithmExact(mesh, g)); // used up to three times
    C.run(s, *alg, qs, qr);
  };
  for (size_t s = 0; s < qs.size(); s++)
    if (s < nv || th || s % 3 == 0) go({qs[s]});
  for (size_t s = 0; s < qs.size(); s += 1 + qs.size() / (th ? 9 : 4))
    for (size_t t = 0; t < qs.size(); t += 1 + qs.size() / (th ? 9 : 4))
      if (s != t) go({qs[s], qs[t]});
  if (nv > 3) go({qs[0], qs[1], qs[nv - 1]});
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C13";
  o.technique = "exhaustive enumeration of sources and queries on every small surface; the real solver compared with exhaustive unfolding of all face sequences";
  o.rule = "a case is one surface; all sources and queries of the stated sets are evaluated; non-trivial when paths cross edges";
  o.assumptions = {"triangle meshes", "distances compared up to 2e-5 relative to the mean edge length (the solver discards windows below 1e-6)"};
  o.caseCpuLimit = 120;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    for (auto& s : suite::triShapes(true)) {
      suite::In in = suite::from(s);
      if (in.P.size() > (th ? 60 : 40)) continue;
      if (!ctx.begin(in.name)) continue;
      in.build();
      surfaceCase(ctx, in.name, *in.mesh, *in.g, in.M->L, in.M.get(), th || in.P.size() <= 18);
    }
    for (size_t nf = 1; nf <= 2; nf++)
      suite::glued(nf, th ? std::vector<double>{1, 1.5, 1.9} : std::vector<double>{1, 1.5}, false, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        in.build();
        surfaceCase(ctx, in.name, *in.mesh, *in.g, in.M->L, in.M.get(), true);
      });
    geo::placements(gen::tetra(), geo::lattice(2, 2, 3), [&](const geo::Pts& p, size_t n) {
      if (!ctx.beginf([&] { return cat("tetra", n); })) return;
      suite::In in;
      in.name = cat("tetra", n, geo::str(p));
      in.P = gen::tetra();
      in.p = p;
      in.build();
      if (in.M->valid) surfaceCase(ctx, in.name, *in.mesh, *in.g, in.M->L, in.M.get(), false);
    });
    // intrinsic triangulations with self-edges and parallel edges, reached by flipping edges of cones
    for (size_t k = 3; k <= (th ? 5 : 4); k++)
      for (double h : {1.5, 4.})
        for (int closed = 0; closed < 2; closed++) {
          suite::In in = suite::from(suite::cone(k, h));
          if (closed)
            for (size_t i = 2; i < k; i++) in.P.push_back({1, i + 1, i});
          in.name += closed ? " closed" : "";
          std::set<uint64_t> seen;
          std::vector<std::vector<size_t>> todo{{}};
          size_t done = 0;
          while (!todo.empty() && done < (th ? 40 : 12)) {
            std::vector<size_t> w = todo.front();
            todo.erase(todo.begin());
            in.build();
            SignpostIntrinsicTriangulation t(*in.mesh, *in.g);
            bool ok = true;
            for (size_t e : w) ok = ok && t.flipEdgeIfPossible(t.intrinsicMesh->edge(e));
            if (!ok) continue;
            uint64_t hsh = 7;
            size_t special = 0;
            std::multiset<std::pair<size_t, size_t>> ends;
            std::vector<double> ls;
            for (Edge e : t.intrinsicMesh->edges()) {
              size_t x = e.firstVertex().getIndex(), y = e.secondVertex().getIndex();
              ends.insert({std::min(x, y), std::max(x, y)});
              special += x == y;
              ls.push_back(t.edgeLengths[e]);
            }
            std::sort(ls.begin(), ls.end());
            for (double l : ls) hsh = mc::mix(hsh, (uint64_t)std::llround(l * 1e6));
            if (!seen.insert(hsh).second) continue;
            for (auto& p : ends) special += ends.count(p) > 1;
            if (w.size() < 4)
              for (size_t e = 0; e < t.intrinsicMesh->nEdges(); e++) {
                auto w2 = w;
                w2.push_back(e);
                todo.push_back(w2);
              }
            if (!special) continue;
            bool folded = false; // windows cannot tell the two sides of an edge used twice by one face
            for (Face f : t.intrinsicMesh->faces())
              for (Halfedge he : f.adjacentHalfedges()) folded = folded || he.edge() == he.next().edge();
            if (folded) continue;
            done++;
            std::string name = cat("flipped ", in.name, " ", mc::str(w));
            if (!ctx.beginf([&] { return name; })) continue;
            t.refreshQuantities();
            exact::Exact orig(*in.mesh, in.M->L); // distances are those of the input surface
            surfaceCase(ctx, name, *t.intrinsicMesh, t, t.edgeLengths, nullptr, false, &orig, [&](const SurfacePoint& p) { return snap(t.equivalentPointOnInput(p)); });
          }
        }
    // general meshes: books, vertex-joined fans, inconsistently oriented and disconnected surfaces
    std::vector<std::pair<std::string, gen::Polys>> gs{{"book3", gen::book(3)}, {"book4", gen::book(4)}, {"hourglass", {{0, 1, 2}, {0, 3, 4}}}, {"flipped pair", {{0, 1, 2}, {0, 1, 3}}},
        {"moebius", {{0, 1, 2}, {1, 2, 3}, {2, 3, 4}, {3, 4, 0}, {4, 0, 1}}}, {"two", {{0, 1, 2}, {3, 4, 5}}}, {"fin on tetra", {{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {2, 3, 0}, {0, 1, 4}, {1, 4, 5}}}};
    if (th) gs.push_back({"book6", gen::book(6)});
    for (auto& s : gs)
      for (int style = 0; style < (th ? 6 : 3); style++) {
        if (!ctx.beginf([&] { return cat(s.first, style); })) continue;
        geo::Pts p;
        for (size_t v = 0; v <= gen::maxVert(s.second); v++) {
          double x = 1.7 * v + style;
          p.push_back(Vector3{std::cos(2.4 * x) * (1 + .2 * style), std::sin(2.4 * x), .6 * std::cos(1.3 * x + style)});
        }
        auto e = geo::general(s.second, p);
        EdgeData<double> len(*e.mesh);
        for (Edge ed : e.mesh->edges()) len[ed] = norm(p[ed.firstVertex().getIndex()] - p[ed.secondVertex().getIndex()]);
        surfaceCase(ctx, cat(s.first, style), *e.mesh, *e.geom, len, nullptr, true);
      }
  });
}
