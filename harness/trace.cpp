// C12: geodesic tracing.  Every start point of a lattice of points, every direction of a lattice of directions and several
// lengths on every input surface; the traced path is compared with an independent unfolding.
#include "suite.h"
#include "geometrycentral/surface/trace_geodesic.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using geod::Metric;

struct Tracer {
  Ctx& ctx;
  suite::In& in;
  Metric& M;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  // vector in the library's tangent space with absolute direction a
  Vector2 tangent(const SurfacePoint& p, double a) {
    if (p.type == SurfacePointType::Vertex) a *= (M.boundary(p.vertex) ? PI : 2 * PI) / M.sum[p.vertex];
    return Vector2::fromAngle(a);
  }
  double absolute(const SurfacePoint& p, Vector2 v) {
    double a = v.arg();
    if (p.type == SurfacePointType::Vertex) {
      if (a < 0) a += 2 * PI;
      a *= M.sum[p.vertex] / (M.boundary(p.vertex) ? PI : 2 * PI);
    }
    return a;
  }
  bool pathOK(const std::vector<SurfacePoint>& P, const SurfacePoint& start, double len, double a0, const SurfacePoint& end, double aEnd, bool checkDirs) {
    if (P.size() < 2) return bad("path", cat("has ", P.size(), " points")), false;
    if (!(P.front() == start)) bad("path", cat("starts at ", P.front(), " instead of ", start));
    if (!(P.back() == end)) bad("path", "does not end at endPoint");
    for (size_t i = 0; i < P.size(); i++) {
      if (!geod::validPoint(P[i], in.mesh.get())) return bad("path", cat("invalid point ", P[i])), false;
      if (i > 0 && i + 1 < P.size() && P[i].type != SurfacePointType::Edge) return bad("path", cat("intermediate point ", P[i])), false;
    }
    std::string why;
    auto rs = geod::analyze(M, P, &why);
    if (rs.empty()) return bad("path", "not a straight path: " + why), false;
    bool ok = false, dirOK = false;
    std::string got;
    for (auto& r : rs) {
      bool l = std::abs(r.len - len) < 1e-5 * (M.mean + len);
      bool d0 = std::isnan(r.a0) || geod::circDist(r.a0, a0, geod::period(M, P.front())) < 2e-5;
      bool d1 = !checkDirs || std::isnan(r.a1) || geod::circDist(r.a1 + PI, aEnd, geod::period(M, P.back())) < 1e-4;
      if (l && d0) ok = true;
      if (l && d0 && d1) dirOK = true;
      got += cat(" (len ", r.len, " from ", r.a0, " into ", r.a1 + PI, ")");
    }
    if (!ok) bad("path", cat("readings", got, " instead of len ", len, " from ", a0));
    else if (!dirOK) bad("endingDir", cat("is at angle ", aEnd, ", the path arrives as", got));
    return ok;
  }
  void one(const SurfacePoint& p, double a, double len) {
    geod::Shot s = geod::shoot(M, p, a, len);
    if (s.clearance < 2e-3 * M.mean) {
      ctx.outcome("skipped: hits a vertex");
      return;
    }
    if (geod::shoot(M, p, a, len - 1e-6 * M.mean).hitBoundary != geod::shoot(M, p, a, len + 1e-6 * M.mean).hitBoundary) return; // ends on the boundary
    id = cat(in.name, " from ", p, " dir ", a, " len ", len);
    ctx.note(id);
    ctx.eval();
    ctx.trace();
    TraceOptions withPath;
    withPath.includePath = true;
    TraceGeodesicResult r, q;
    try {
      r = traceGeodesic(*in.g, p, len * tangent(p, a), withPath);
      q = traceGeodesic(*in.g, p, len * tangent(p, a));
    } catch (std::exception& e) {
      bad("exception", e.what());
      return;
    }
    ctx.transition(r.pathPoints.size());
    ctx.outcome(s.hitBoundary ? "stopped at the boundary" : cat("crossed ", std::min<size_t>(r.pathPoints.size(), 12), " points"));
    if (!r.hasPath) bad("hasPath", "false although the path was requested");
    if (q.hasPath || !q.pathPoints.empty()) bad("hasPath", "true although no path was requested");
    if (!(q.endPoint == r.endPoint) || q.length != r.length || q.endingDir != r.endingDir || q.hitBoundary != r.hitBoundary) bad("includePath", "changes the result");
    if (!geod::validPoint(r.endPoint, in.mesh.get())) return bad("endPoint", cat("invalid point ", r.endPoint));
    if (r.hitBoundary != s.hitBoundary) return bad("hitBoundary", cat(r.hitBoundary, " instead of ", s.hitBoundary));
    if (!(std::abs(r.length - s.done) < 1e-5 * (M.mean + len))) bad("length", cat(r.length, " instead of ", s.done));
    if (!(geod::dist(M, r.endPoint, s.end) < 1e-5 * (M.mean + len))) return bad("endPoint", cat(r.endPoint, " instead of ", s.end));
    if (s.hitBoundary && (r.endPoint.type != SurfacePointType::Edge || !r.endPoint.edge.isBoundary())) bad("endPoint", cat("stopped at ", r.endPoint, " instead of a point on a boundary edge"));
    if (!s.hitBoundary && r.endPoint.type != SurfacePointType::Face) bad("endPoint", cat("ended at ", r.endPoint, " instead of a point in a face"));
    if (!(std::abs(norm(r.endingDir) - 1) < 1e-6)) return bad("endingDir", cat("has norm ", norm(r.endingDir)));
    if (!pathOK(r.pathPoints, p, s.done, a, r.endPoint, absolute(r.endPoint, r.endingDir), true)) return;
    // a second leg continues straight on, and the way back returns to the start
    if (!s.hitBoundary) {
      try {
        TraceGeodesicResult b = traceGeodesic(*in.g, r.endPoint, -len * r.endingDir);
        geod::Shot bs = geod::shoot(M, r.endPoint, absolute(r.endPoint, -r.endingDir), len);
        if (bs.clearance > 2e-3 * M.mean && !(geod::dist(M, b.endPoint, p) < 1e-4 * (M.mean + len)) && !bs.hitBoundary) bad("way back", cat("ends at ", b.endPoint, " instead of ", p));
        geod::Shot f = geod::shoot(M, p, a, 1.5 * len);
        TraceGeodesicResult c = traceGeodesic(*in.g, r.endPoint, .5 * len * r.endingDir);
        if (f.clearance > 5e-3 * M.mean && !(geod::dist(M, c.endPoint, f.end) < 1e-4 * (M.mean + len))) bad("second leg", cat("ends at ", c.endPoint, " instead of ", f.end));
      } catch (std::exception& e) { bad("exception", e.what()); }
    }
    // barycentric variant
    if (p.type == SurfacePointType::Face) {
      geod::Frame F = geod::layout(M, p.face);
      Vector2 d = len * Vector2::fromAngle(a);
      double A = cross(F.q[1] - F.q[0], F.q[2] - F.q[0]);
      Vector3 db{0, 0, 0};
      for (int i = 0; i < 3; i++) db[i] = cross(F.q[(i + 2) % 3] - F.q[(i + 1) % 3], d) / A;
      try {
        TraceGeodesicResult b = traceGeodesic(*in.g, p.face, p.faceCoords, db, withPath);
        if (!(geod::dist(M, b.endPoint, s.end) < 1e-5 * (M.mean + len))) bad("barycentric endPoint", cat(b.endPoint, " instead of ", s.end));
        else if (!(std::abs(b.length - s.done) < 1e-5 * (M.mean + len))) bad("barycentric length", cat(b.length, " instead of ", s.done));
        else if (b.hitBoundary != s.hitBoundary) bad("barycentric hitBoundary", cat(b.hitBoundary));
        else pathOK(b.pathPoints, p, s.done, a, b.endPoint, absolute(b.endPoint, b.endingDir), true);
      } catch (std::exception& e) { bad("exception", e.what()); }
    }
    // barriers and iteration limits: the path is cut at its first crossing of a barrier / after so many faces
    std::vector<double> run{0};
    {
      // arc length at every path point from the lengths of its prefixes
      for (size_t i = 1; i < r.pathPoints.size(); i++) run.push_back(run.back() + geod::dist(M, r.pathPoints[i - 1], r.pathPoints[i]));
      if (std::abs(run.back() - s.done) > 1e-5 * (M.mean + len)) run.clear(); // ambiguous in a Delta-complex
    }
    auto cutAt = [&](const char* what, const TraceGeodesicResult& t, size_t k, bool hit) {
      if (!(geod::dist(M, t.endPoint, r.pathPoints[k]) < 1e-6 * M.mean)) return bad(what, cat("ends at ", t.endPoint, " instead of ", r.pathPoints[k]));
      if (t.pathPoints.size() != k + 1) return bad(what, cat("path has ", t.pathPoints.size(), " points instead of ", k + 1));
      if (run.size() && !(std::abs(t.length - run[k]) < 1e-5 * (M.mean + len))) bad(what, cat("length ", t.length, " instead of ", run[k]));
      if (hit) pathOK(t.pathPoints, p, run.size() ? run[k] : t.length, a, t.endPoint, absolute(t.endPoint, t.endingDir), true);
    };
    std::set<Edge> es;
    for (size_t i = 1; i + 1 < r.pathPoints.size(); i++) es.insert(r.pathPoints[i].edge);
    for (Edge e : es) {
      EdgeData<bool> barrier(*in.mesh, false);
      if (p.type == SurfacePointType::Edge && p.edge == e) continue; // starts on the barrier
      barrier[e] = true;
      size_t k = 1;
      while (r.pathPoints[k].type != SurfacePointType::Edge || r.pathPoints[k].edge != e) k++;
      TraceOptions o = withPath;
      o.barrierEdges = &barrier;
      try {
        cutAt("barrierEdges", traceGeodesic(*in.g, p, len * tangent(p, a), o), k, true);
      } catch (std::exception& x) { bad("exception", x.what()); }
      if (es.size() > 3) break;
    }
    for (size_t it : {0, 1, 2}) {
      TraceOptions o = withPath;
      o.maxIters = it;
      try {
        TraceGeodesicResult t = traceGeodesic(*in.g, p, len * tangent(p, a), o);
        size_t got = t.pathPoints.size();
        if (got == r.pathPoints.size()) {
          if (!(t.endPoint == r.endPoint)) bad("maxIters", "changes an end point which was reached");
          if (got > it + 2 + 1) bad("maxIters", cat(it, " gives a path of ", got, " points"));
        } else {
          // "stop after traversing maxIters faces": the first face may or may not be counted
          if (got != it + 2 && got != it + 1) bad("maxIters", cat(it, " gives a path of ", got, " points"));
          else cutAt("maxIters", t, got - 1, true);
        }
      } catch (std::exception& x) { bad("exception", x.what()); }
    }
  }
};

static void traceAll(Ctx& ctx, suite::In& in, int nDir, const std::vector<double>& lens, bool dense) {
  if (!ctx.begin(in.name)) return;
  in.build();
  Metric& M = *in.M;
  if (!M.valid) return;
  ctx.state(hashStr(in.name));
  Tracer T{ctx, in, M, "", {}};
  std::vector<SurfacePoint> starts;
  for (Vertex v : in.mesh->vertices()) starts.push_back(SurfacePoint(v));
  for (Edge e : in.mesh->edges())
    for (double t : dense ? std::vector<double>{.5, .2, .93} : std::vector<double>{.3}) starts.push_back(SurfacePoint(e, t));
  for (Face f : in.mesh->faces())
    for (Vector3 b : dense ? std::vector<Vector3>{{.3, .5, .2}, {.1, .1, .8}, {.9, .04, .06}} : std::vector<Vector3>{{.3, .5, .2}}) starts.push_back(SurfacePoint(f, b));
  size_t k = 0;
  for (auto& p : starts) {
    k++;
    std::vector<double> dirs;
    bool bv = p.type == SurfacePointType::Vertex && M.boundary(p.vertex);
    double per = geod::period(M, p);
    for (int i = 0; i < nDir; i++) dirs.push_back(per * (bv ? (i + .5) / nDir : (i + .17 * (k % 5)) / nDir));
    if (p.type == SurfacePointType::Vertex) // right next to every outgoing edge
      for (Halfedge h : p.vertex.outgoingHalfedges())
        for (double off : {-.01, .01}) {
          double a = M.phi[h] + off;
          if (bv && (a < .005 || a > M.sum[p.vertex] - .005)) continue;
          dirs.push_back(geod::wrap(a, per));
        }
    for (double a : dirs)
      for (double l : lens) {
        if (p.type == SurfacePointType::Edge && p.edge.isBoundary()) {
          bool in0 = p.edge.halfedge().isInterior();
          double w = geod::wrap(a, 2 * PI);
          if ((w > .01 && w < PI - .01) != in0 || (w < .01 || w > 2 * PI - .01 || std::abs(w - PI) < .01)) continue;
        }
        T.one(p, a, l * M.mean);
      }
    // straight along an edge
    if (p.type == SurfacePointType::Vertex)
      for (Halfedge h : p.vertex.outgoingHalfedges()) {
        double a = h.isInterior() ? M.phi[h] : M.sum[p.vertex];
        T.id = cat(in.name, " from ", p, " along ", h);
        TraceGeodesicResult r = traceGeodesic(*in.g, p, .6 * M.L[h.edge()] * T.tangent(p, a));
        SurfacePoint want(h, .6);
        ctx.eval();
        if (!geod::validPoint(r.endPoint, in.mesh.get()) || !(geod::dist(M, r.endPoint, want) < 1e-4 * M.mean)) T.bad("along an edge", cat("ends at ", r.endPoint, " instead of ", want));
      }
    // the zero vector stays put
    T.id = cat(in.name, " from ", p, " zero vector");
    TraceOptions o;
    o.includePath = true;
    TraceGeodesicResult z = traceGeodesic(*in.g, p, Vector2::zero(), o);
    if (!geod::validPoint(z.endPoint, in.mesh.get()) || !(geod::dist(M, z.endPoint, p) < 1e-9) || z.length != 0 || z.hitBoundary) T.bad("zero vector", cat("ends at ", z.endPoint));
    if (z.pathPoints.empty() || !(z.pathPoints.front() == p) || !(z.pathPoints.back() == z.endPoint)) T.bad("zero vector", "path does not contain start and end");
    ctx.eval();
  }
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C12";
  o.technique = "exhaustive enumeration of start points, directions and lengths on every small surface; real tracing compared with an independent unfolding";
  o.rule = "a case is one surface; all start points/directions/lengths of the stated lattices are traced; non-trivial when the path crosses edges";
  o.assumptions = {"directions that pass a vertex within 0.2% of the mean edge length are skipped (the straight continuation is undefined there)", "triangle meshes"};
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    for (auto& s : suite::triShapes(th)) {
      suite::In in = suite::from(s);
      traceAll(ctx, in, th ? 24 : 10, th ? std::vector<double>{.1, .7, 2.3, 6.1} : std::vector<double>{.3, 2.3}, th);
    }
    for (size_t nf = 1; nf <= 2; nf++)
      suite::glued(nf, th ? std::vector<double>{1, 1.5, 1.9} : std::vector<double>{1, 1.5}, true, [&](suite::In& in) { traceAll(ctx, in, th ? 16 : 8, {.4, 2.7}, th); });
    // every placement of a closed tetrahedron and of two triangles on a small lattice
    geo::placements(gen::tetra(), geo::lattice(2, 2, th ? 3 : 2), [&](const geo::Pts& p, size_t n) {
      suite::In in;
      in.name = cat("tetra", n, geo::str(p));
      in.P = gen::tetra();
      in.p = p;
      traceAll(ctx, in, 6, {1.3}, false);
    });
  });
}
