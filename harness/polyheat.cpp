// C34: the heat methods on polygon meshes, against a dense evaluation of the published discrete algorithms on the
// polygon operators (which C08 validates): every source vertex and pair, every edge path of up to three edges, every
// loop around a face or vertex, every constraint.
#include "suite.h"
#include "ops.h"
#include "geometrycentral/surface/polygon_mesh_heat_solver.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using namespace ops;
typedef std::vector<std::vector<Vertex>> Curves;

struct Case {
  Ctx& ctx;
  std::string id;
  SurfaceMesh& mesh;
  VertexPositionGeometry& g;
  bool man, deep;
  std::set<std::string> seen;
  std::vector<Vertex> V;
  std::vector<Face> F;
  std::map<size_t, size_t> vi, fi;
  Mat L, Ms, G, D;
  CMat LC;
  double mean = 0;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i, SurfaceMesh& m, VertexPositionGeometry& g_, bool man_, bool deep_) : ctx(c), id(i), mesh(m), g(g_), man(man_), deep(deep_) {
    for (Vertex v : m.vertices()) {
      vi[v.getIndex()] = V.size();
      V.push_back(v);
    }
    for (Face f : m.faces()) {
      fi[f.getIndex()] = F.size();
      F.push_back(f);
    }
    for (Edge e : m.edges()) mean += norm(at(e.firstVertex()) - at(e.secondVertex()));
    mean /= m.nEdges();
    g.requirePolygonLaplacian();
    g.requirePolygonVertexLumpedMassMatrix();
    g.requirePolygonGradientMatrix();
    g.requirePolygonDivergenceMatrix();
    L = Mat(g.polygonLaplacian);
    Ms = Mat(g.polygonVertexLumpedMassMatrix);
    G = Mat(g.polygonGradientMatrix);
    D = Mat(g.polygonDivergenceMatrix);
    g.unrequirePolygonLaplacian();
    g.unrequirePolygonVertexLumpedMassMatrix();
    g.unrequirePolygonGradientMatrix();
    g.unrequirePolygonDivergenceMatrix();
    if (man) {
      g.requirePolygonVertexConnectionLaplacian();
      LC = CMat(g.polygonVertexConnectionLaplacian);
      g.unrequirePolygonVertexConnectionLaplacian();
    }
    g.purgeQuantities();
  }
  Vector3 at(Vertex v) { return g.inputVertexPositions[v]; }
  size_t idx(Vertex v) { return vi.at(v.getIndex()); }
  Vec poisson(const Vec& b) { return Eigen::PartialPivLU<Mat>(L + Mat::Constant(V.size(), V.size(), 1.)).solve(b); }
  Vec heat(const Vec& r, double t) { return Eigen::PartialPivLU<Mat>(Ms + t * L).solve(r); }
  void cmp(const std::string& k, const VertexData<double>& got, const Vec& want, const std::string& in, double tol = 2e-5) {
    double sc = 1 + want.cwiseAbs().maxCoeff();
    for (Vertex v : V)
      if (!(std::abs(got[v] - want(idx(v))) <= tol * sc)) {
        bad(k, cat(in, " at ", v, " ", got[v], " should be ", want(idx(v))));
        return;
      }
  }
  template <class T> bool tried(const std::string& k, const std::string& in, T f) {
    ctx.transition();
    try {
      f();
    } catch (std::exception& e) {
      bad(k + " fails", cat(in, ": ", std::string(e.what()).substr(0, 80)));
      return false;
    }
    return true;
  }
  void distances(PolygonMeshHeatSolver& s, double t) {
    std::vector<std::vector<Vertex>> src;
    for (size_t i = 0; i < V.size(); i++) {
      src.push_back({V[i]});
      for (size_t j = i + 1; j < V.size(); j++)
        if (deep || (i * 3 + j) % 4 == 0) src.push_back({V[i], V[j]});
      if (V.size() > 3) src.push_back({V[i], V[(i + 1) % V.size()], V[(i * 2 + 3) % V.size()]});
    }
    for (auto& q : src) {
      Vec r = Vec::Zero(V.size());
      std::string in;
      for (Vertex v : q) {
        r(idx(v)) += 1;
        in += cat(v, " ");
      }
      Vec u = heat(r, t), Y = G * u;
      bool ok = true;
      double mx = 0;
      for (size_t f = 0; f < F.size(); f++) mx = std::max(mx, Y.segment(3 * f, 3).norm());
      for (size_t f = 0; f < F.size(); f++) {
        double n = Y.segment(3 * f, 3).norm();
        if (!(n > 1e-7 * mx)) ok = false;
        Y.segment(3 * f, 3) /= -n;
      }
      // relative size of the gradient of the heat in each face, where cancellation would make its direction meaningless
      for (size_t f = 0; f < F.size(); f++) {
        double loc = 0;
        for (Vertex v : F[f].adjacentVertices()) loc = std::max(loc, std::abs(u(idx(v))));
        if (!((G * u).segment(3 * f, 3).norm() * mean > 1e-5 * loc)) ok = false;
      }
      if (!ok) {
        ctx.outcome("distance not compared");
        continue;
      }
      Vec phi = poisson(D * Y);
      phi.array() -= phi.minCoeff();
      VertexData<double> got;
      if (!tried("computeDistance", in, [&] { got = q.size() == 1 ? s.computeDistance(q[0]) : s.computeDistance(q); })) continue;
      cmp("computeDistance", got, phi, in);
      ctx.outcome(cat("distance from ", q.size()));
    }
  }
  void scalars(PolygonMeshHeatSolver& s, double t) {
    for (size_t i = 0; i < V.size(); i++)
      for (size_t k = 1; k <= 3; k++) {
        std::vector<std::tuple<Vertex, double>> q;
        std::set<size_t> used;
        std::string in;
        Vec a = Vec::Zero(V.size()), b = a;
        for (size_t j = 0; j < k; j++) {
          size_t x = (i + j * (j + i + 1)) % V.size();
          if (!used.insert(x).second) continue;
          double val = (int)((i * 3 + j * 5) % 7) - 3 + .25;
          q.push_back({V[x], val});
          in += cat(V[x], "=", val, " ");
          a(x) = val;
          b(x) = 1;
        }
        Vec B = heat(b, t), want = heat(a, t).array() / B.array();
        if (B.cwiseAbs().minCoeff() < 1e-9 * B.cwiseAbs().maxCoeff()) continue;
        VertexData<double> got;
        if (!tried("extendScalars", in, [&] { got = s.extendScalars(q); })) continue;
        cmp("extendScalars", got, want, in);
        if (q.size() == 1)
          for (Vertex v : V)
            if (!(std::abs(got[v] - std::get<1>(q[0])) < 1e-7 * (1 + std::abs(std::get<1>(q[0]))))) bad("extendScalars of one value", cat(in, " at ", v, " ", got[v]));
        ctx.outcome(cat("scalars ", q.size()));
      }
  }
  void vectors(PolygonMeshHeatSolver& s, double t) {
    CMat K = Ms.cast<C>() + t * LC;
    Eigen::PartialPivLU<CMat> lu(K);
    for (size_t i = 0; i < V.size(); i++)
      for (int k = 0; k < 4; k++) { // one vector, two of the same length, two or three of different lengths
        std::vector<std::tuple<Vertex, Vector2>> q;
        std::string in;
        std::vector<double> lens = k == 0 ? std::vector<double>{2.} : k == 1 ? std::vector<double>{1.5, 1.5} : k == 2 ? std::vector<double>{1, 3} : std::vector<double>{.5, 2, 1};
        std::set<size_t> used;
        Vec mag = Vec::Zero(V.size()), one = mag;
        CVec raw = CVec::Zero(V.size()), nrm = raw;
        bool same = true;
        for (size_t j = 0; j < lens.size(); j++) {
          size_t x = (i + j * (j + i + 1)) % V.size();
          if (!used.insert(x).second) continue;
          Vector2 w = Vector2::fromAngle(.7 * i + 2.1 * j + .3) * lens[j];
          q.push_back({V[x], w});
          in += cat(V[x], "=", w, " ");
          raw(x) = (C)w;
          nrm(x) = raw(x) / lens[j];
          mag(x) = lens[j];
          one(x) = 1;
          if (lens[j] != lens[0]) same = false;
        }
        VertexData<Vector2> got;
        if (!tried("transportTangentVectors", in, [&] { got = q.size() == 1 ? s.transportTangentVector(std::get<0>(q[0]), std::get<1>(q[0])) : s.transportTangentVectors(q); })) continue;
        CVec R = lu.solve(raw), N = lu.solve(nrm);
        Vec den = heat(one, t), m = heat(mag, t).array() / den.array();
        for (Vertex v : V) {
          size_t x = idx(v);
          double len = same ? lens[0] : m(x);
          if (!(std::abs(R(x)) > 1e-6 * R.cwiseAbs().maxCoeff()) || !(std::abs(N(x)) > 1e-6 * N.cwiseAbs().maxCoeff())) continue;
          C a = R(x) / std::abs(R(x)) * len, b = N(x) / std::abs(N(x)) * len, gv = (C)got[v];
          if (!(std::min(std::abs(gv - a), std::abs(gv - b)) <= 2e-5 * (1 + std::abs(len)))) {
            bad("transportTangentVectors", cat(in, " at ", v, " ", got[v], " should be ", a));
            break;
          }
        }
        ctx.outcome(cat("vectors ", q.size()));
      }
  }
  bool signedRef(const Curves& cs, LevelSetConstraint lc, double t, Vec& phi) {
    g.requireVertexTangentBasis();
    g.requireVertexNormals();
    CVec X = CVec::Zero(V.size());
    size_t n = V.size();
    double wt = 0;
    Vec avg = Vec::Zero(n);
    for (auto& c : cs)
      for (size_t i = 0; i + 1 < c.size(); i++) {
        Vector3 tan = at(c[i + 1]) - at(c[i]);
        for (Vertex v : {c[i], c[i + 1]}) { // left normal: the projection to the tangent plane, turned by a quarter
          Vector3 b0 = g.vertexTangentBasis[v][0], b1 = g.vertexTangentBasis[v][1];
          X(idx(v)) += C(0, 1) * C(dot(b0, tan), dot(b1, tan));
          avg(idx(v)) += .5 * norm(tan);
        }
        wt += norm(tan);
      }
    avg /= wt;
    bool ok = X.cwiseAbs().maxCoeff() > 1e-9;
    if (ok) {
      CVec Xt = Eigen::PartialPivLU<CMat>(Ms.cast<C>() + t * LC).solve(X);
      Vec Y(3 * F.size());
      for (size_t f = 0; f < F.size(); f++) {
        Vector3 y = Vector3::zero();
        double loc = 0;
        for (Vertex v : F[f].adjacentVertices()) {
          y += Xt(idx(v)).real() * g.vertexTangentBasis[v][0] + Xt(idx(v)).imag() * g.vertexTangentBasis[v][1];
          loc = std::max(loc, std::abs(Xt(idx(v))));
        }
        if (!(norm(y) > 1e-6 * loc) || !(loc > 1e-7 * Xt.cwiseAbs().maxCoeff())) ok = false;
        y = unit(y);
        for (int j = 0; j < 3; j++) Y(3 * f + j) = y[j];
      }
      Vec d = D * Y;
      std::vector<std::pair<size_t, size_t>> eq; // equal values
      std::vector<size_t> all;
      if (lc == LevelSetConstraint::ZeroSet) {
        for (auto& c : cs)
          for (Vertex v : c) all.push_back(idx(v));
        for (size_t i = 1; i < all.size(); i++) eq.push_back({all[0], all[i]});
      }
      if (lc == LevelSetConstraint::Multiple)
        for (auto& c : cs)
          for (size_t i = 1; i < c.size(); i++) eq.push_back({idx(c[0]), idx(c[i])});
      // merge vertices required to have equal values
      std::vector<size_t> r(n);
      for (size_t i = 0; i < n; i++) r[i] = i;
      std::function<size_t(size_t)> find = [&](size_t x) { return r[x] == x ? x : r[x] = find(r[x]); };
      for (auto& e : eq) r[find(e.first)] = find(e.second);
      std::map<size_t, size_t> id;
      for (size_t i = 0; i < n; i++) id.emplace(find(i), id.size());
      Mat B = Mat::Zero(n, id.size());
      for (size_t i = 0; i < n; i++) B(i, id[find(i)]) = 1;
      Mat A = B.transpose() * (L + Mat::Constant(n, n, 1.)) * B;
      if (lc == LevelSetConstraint::ZeroSet) { // values zero on the curves: not the same problem as equal values
        std::vector<size_t> fr;
        std::set<size_t> fix(all.begin(), all.end());
        for (size_t i = 0; i < n; i++)
          if (!fix.count(i)) fr.push_back(i);
        Mat AA(fr.size(), fr.size());
        Vec bb(fr.size());
        for (size_t i = 0; i < fr.size(); i++) {
          bb(i) = d(fr[i]);
          for (size_t j = 0; j < fr.size(); j++) AA(i, j) = L(fr[i], fr[j]);
        }
        phi = Vec::Zero(n);
        if (fr.size()) {
          Vec x = Eigen::PartialPivLU<Mat>(AA).solve(bb);
          for (size_t i = 0; i < fr.size(); i++) phi(fr[i]) = x(i);
        }
      } else {
        phi = B * Vec(Eigen::PartialPivLU<Mat>(A).solve(B.transpose() * d));
        phi.array() -= avg.dot(phi);
      }
    }
    g.unrequireVertexTangentBasis();
    g.unrequireVertexNormals();
    return ok;
  }
  void signedDist(PolygonMeshHeatSolver& s, double t) {
    std::vector<Curves> P;
    std::vector<std::vector<Vertex>> loops;
    for (Halfedge h : mesh.halfedges()) {
      if (!h.isInterior() && !h.twin().isInterior()) continue;
      P.push_back({{h.tailVertex(), h.tipVertex()}});
      for (Halfedge k : h.tipVertex().outgoingHalfedges())
        if (k.tipVertex() != h.tailVertex() && (deep || (h.getIndex() + k.getIndex()) % 2)) P.push_back({{h.tailVertex(), h.tipVertex(), k.tipVertex()}});
    }
    for (Face f : mesh.faces()) {
      std::vector<Vertex> l;
      for (Vertex v : f.adjacentVertices()) l.push_back(v);
      l.push_back(l[0]);
      loops.push_back(l);
      std::reverse(l.begin(), l.end());
      loops.push_back(l);
    }
    for (auto& l : loops) P.push_back({l});
    for (size_t i = 0; i < loops.size(); i++) {
      size_t j = (i * 5 + 2) % loops.size();
      if (j / 2 != i / 2) P.push_back({loops[i], loops[j]});
      Halfedge h = *mesh.halfedges().begin();
      P.push_back({loops[i], {h.tailVertex(), h.tipVertex()}});
    }
    size_t lim = deep ? 100000 : 120;
    for (size_t k = 0; k < P.size(); k++) {
      if (P.size() > lim && (k * lim) / P.size() == ((k + 1) * lim) / P.size()) continue;
      auto& cs = P[k];
      std::string in;
      for (auto& c : cs) {
        for (Vertex v : c) in += cat(v, " ");
        in += "; ";
      }
      for (int lc = 0; lc < 3; lc++) {
        static const char* nm[] = {"None", "ZeroSet", "Multiple"};
        LevelSetConstraint o = lc == 0 ? LevelSetConstraint::None : lc == 1 ? LevelSetConstraint::ZeroSet : LevelSetConstraint::Multiple;
        Vec want;
        if (!signedRef(cs, o, t, want)) {
          ctx.outcome("signed distance not compared");
          continue;
        }
        VertexData<double> got;
        std::string key = cat("computeSignedDistance ", nm[lc], cs.size() > 1 ? " several" : cs[0][0] == cs[0].back() ? " loop" : " open");
        if (!tried(key, in, [&] { got = s.computeSignedDistance(cs, o); })) continue;
        cmp(key, got, want, in);
        ctx.outcome(key);
      }
    }
  }
  void run() {
    for (double tc : {1., .4}) {
      if (tc < 1 && !deep && hashStr(id) % 2) continue;
      double t = tc * mean * mean;
      std::unique_ptr<PolygonMeshHeatSolver> s;
      if (!tried("constructor", "", [&] { s.reset(new PolygonMeshHeatSolver(g, tc)); })) return;
      distances(*s, t);
      scalars(*s, t);
      if (man) {
        vectors(*s, t);
        signedDist(*s, t);
      }
    }
  }
};

// true distances on a flat grid of squares
static void flat(Ctx& ctx, int n) {
  if (!ctx.begin(cat("flat", n))) return;
  auto s = geo::planarGrid(n, n, 0);
  auto e = geo::manifold(s.P, s.p);
  ctx.state(hashStr(cat("flat", n)));
  PolygonMeshHeatSolver solver(*e.geom);
  std::map<std::pair<int, int>, Vertex> at;
  for (Vertex v : e.mesh->vertices()) at[{(int)std::round(s.p[v.getIndex()].x), (int)std::round(s.p[v.getIndex()].y)}] = v;
  for (Vertex v : e.mesh->vertices()) {
    ctx.transition();
    try {
      auto d = solver.computeDistance(v);
      auto X = solver.transportTangentVector(v, Vector2::fromAngle(.4) * 2.);
      e.geom->requireVertexTangentBasis();
      auto dir = [&](Vertex w) { return X[w].x * e.geom->vertexTangentBasis[w][0] + X[w].y * e.geom->vertexTangentBasis[w][1]; };
      for (Vertex w : e.mesh->vertices()) {
        double tr = norm(s.p[v.getIndex()] - s.p[w.getIndex()]);
        if (!(std::abs(d[w] - tr) <= 1. + .2 * tr)) ctx.fail("flat distance", cat("distance on a flat grid: ", d[w], " true ", tr));
        if (!(norm(dir(w) - dir(v)) < 1e-5)) ctx.fail("flat transport", cat("transport on a flat grid turns the vector: ", dir(w), " from ", dir(v)));
      }
      e.geom->unrequireVertexTangentBasis();
    } catch (std::exception& x) {
      ctx.fail("flat", x.what());
    }
  }
  for (int c = 2; c <= n - 2; c++)
    for (int dirn = 0; dirn < 4; dirn++) {
      std::vector<Vertex> cv;
      for (int k = 0; k <= n; k++) {
        int a = dirn % 2 ? n - k : k;
        cv.push_back(dirn < 2 ? at[{a, c}] : at[{c, a}]);
      }
      for (auto lc : {LevelSetConstraint::None, LevelSetConstraint::ZeroSet, LevelSetConstraint::Multiple}) {
        ctx.transition();
        try {
          auto d = solver.computeSignedDistance({cv}, lc);
          for (Vertex v : e.mesh->vertices()) {
            Vector3 p = s.p[v.getIndex()];
            double y = dirn < 2 ? p.y - c : c - p.x;
            if (dirn % 2) y = -y;
            if (!(std::abs(d[v] - y) <= .3 + .3 * std::abs(y))) {
              ctx.fail("flat line", cat("signed distance to a straight line: ", d[v], " true ", y));
              break;
            }
          }
        } catch (std::exception& x) {
          ctx.fail("flat line", x.what());
        }
      }
    }
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C34";
  o.technique = "explicit enumeration of inputs, sources, curves and constraints against a dense reference implementation";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "a distance, extended scalar, transported vector or signed distance outside numerical tolerance of the published discrete algorithm, or a failure to compute it";
  o.assumptions = {"the polygon operators themselves are judged by C08", "faces in which the diffused quantity has no direction are not compared"};
  o.caseCpuLimit = 200;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    std::vector<geo::Shape> ps = {geo::planarGrid(1, 1, 0), geo::planarGrid(2, 2, 0), geo::planarGrid(3, 3, 0), geo::planarGrid(3, 2, 0, true), geo::planarGrid(4, 3, 0, true), geo::torus(4, 3, 0), geo::cylinder(4, 2, 0),
                                  geo::cylinder(5, 1, 0), {"cube", gen::cube(), geo::cubeTri().p},
                                  {"pyramid4", {{3, 2, 1, 0}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}}, {{0, 0, 0}, {1, 0, .1}, {1.2, 1.1, 0}, {0, 1, 0}, {.4, .5, .9}}},
                                  {"prism3", {{2, 1, 0}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}, {{0, 0, 0}, {1, 0, 0}, {.3, .9, 0}, {0, 0, 1.2}, {1, 0, 1}, {.3, .9, 1.1}}},
                                  {"prism6", {{5, 4, 3, 2, 1, 0}, {6, 7, 8, 9, 10, 11}, {0, 1, 7, 6}, {1, 2, 8, 7}, {2, 3, 9, 8}, {3, 4, 10, 9}, {4, 5, 11, 10}, {5, 0, 6, 11}}, {}},
                                  {"mixed", {{0, 1, 2, 3}, {1, 4, 2}, {3, 2, 5, 6, 7}, {2, 4, 8, 5}}, {{0, 0, 0}, {1, 0, .1}, {1, 1, 0}, {0, 1, 0}, {1.9, .4, .2}, {1.1, 2, 0}, {.4, 2.5, .1}, {-.3, 1.8, 0}, {2, 1.8, 0}}}};
    for (auto& s : ps)
      if (s.name == "prism6")
        for (int k = 0; k < 12; k++) s.p.push_back(Vector3{std::cos(geo::PI * (k % 6) / 3), std::sin(geo::PI * (k % 6) / 3), k < 6 ? 0. : 1.1 + .1 * (k % 3)});
    size_t n = ps.size();
    for (size_t i = 0; i < n; i++) ps.push_back(suite::jitter(ps[i], .25));
    for (auto& s : ps) {
      if (!ctx.begin(s.name)) continue;
      ctx.state(hashStr(s.name));
      auto e = geo::manifold(s.P, s.p);
      Case(ctx, s.name, *e.mesh, *e.geom, true, th).run();
    }
    for (auto& s : suite::triShapes(th)) {
      if (ctx.begin(s.name)) {
        ctx.state(hashStr(s.name));
        auto e = geo::manifold(s.P, s.p);
        Case(ctx, s.name, *e.mesh, *e.geom, true, th).run();
      }
      if (ctx.begin(s.name + "-holes")) {
        suite::In in = suite::from(s);
        in.build();
        if (!suite::punch(in)) continue;
        ctx.state(hashStr(in.name));
        Case(ctx, in.name, *in.mesh, *in.vpg, true, false).run();
      }
    }
    struct Gn {
      const char* n;
      gen::Polys P;
      geo::Pts p;
    };
    std::vector<Gn> gs = {{"book3", gen::book(3), {{0, 0, 0}, {0, 0, 1}, {1, 0, .3}, {-.6, .7, .5}, {-.5, -.9, .4}}},
                          {"hourglass", {{0, 1, 2}, {0, 3, 4}}, {{0, 0, 0}, {1, 0, 0}, {.4, .9, 0}, {-1, 0, .2}, {-.4, -.8, .3}}},
                          {"moebius", {{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 0, 4}, {4, 0, 1}}, {{0, 0, 0}, {1, 0, .1}, {1.2, 1, 0}, {.3, 1.5, .6}, {-.6, .8, .2}}},
                          {"quadbook", {{0, 1, 2, 3}, {1, 0, 4, 5}, {0, 1, 6}}, {{0, 0, 0}, {0, 0, 1}, {1, 0, 1.1}, {1, 0, 0}, {-.6, .7, 0}, {-.6, .7, 1}, {-.5, -.9, .4}}}};
    for (auto& s : gs) {
      if (!ctx.begin(s.n)) continue;
      ctx.state(hashStr(s.n));
      auto e = geo::general(s.P, s.p);
      Case(ctx, s.n, *e.mesh, *e.geom, false, th).run();
    }
    flat(ctx, 8);
    if (th) flat(ctx, 12);
  });
}
