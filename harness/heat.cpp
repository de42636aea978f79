// C15: heat-flow distance, scalar extension, parallel transport and logarithmic maps on triangle meshes, against dense
// implementations of the published algorithms, for every vertex, every edge and every face as the source (and pairs of
// sources), on every input.
#include "suite.h"
#include "ops.h"
#include "geometrycentral/surface/heat_method_distance.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/tufted_laplacian.h"
#include "geometrycentral/surface/vector_heat_method.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using namespace ops;

struct Case {
  Ctx& ctx;
  std::string id;
  SurfaceMesh& mesh;
  IntrinsicGeometryInterface& g;
  bool deep;
  std::unique_ptr<Surf> S;
  std::set<std::string> seen;
  std::vector<SurfacePoint> pts;
  std::vector<std::vector<SurfacePoint>> sets;
  bool simplicialSource = true;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i, SurfaceMesh& m, IntrinsicGeometryInterface& g_, bool deep_) : ctx(c), id(i), mesh(m), g(g_), deep(deep_) {
    g.requireEdgeLengths();
    S.reset(new Surf(mesh, g.edgeLengths));
    for (Vertex v : mesh.vertices()) pts.push_back(v);
    for (Edge e : mesh.edges()) pts.push_back(SurfacePoint(e, e.getIndex() % 2 ? .3 : .5));
    for (Face f : mesh.faces()) pts.push_back(SurfacePoint(f, f.getIndex() % 2 ? Vector3{.2, .5, .3} : Vector3{1. / 3, 1. / 3, 1. / 3}));
    for (auto& p : pts) sets.push_back({p});
    size_t n = pts.size();
    for (size_t k = 0; k < (deep ? n * 2 : n); k++) sets.push_back({pts[k % n], pts[(k * 7 + 3 + k / n) % n]});
    for (size_t k = 0; k < n; k += 3) sets.push_back({pts[k], pts[(k + 1) % n], pts[(k * 5 + 2) % n]});
  }
  static std::string str(const std::vector<SurfacePoint>& s) {
    std::string r;
    for (auto& p : s) r += cat(p, " ");
    return r;
  }
  bool differ(const Vec& a, const VertexData<double>& b, double tol, std::string& why) {
    double sc = 1 + a.cwiseAbs().maxCoeff();
    for (Vertex v : mesh.vertices())
      if (!(std::abs(a(S->idx(v)) - b[v]) <= tol * sc)) {
        why = cat("at ", v, " ", b[v], " should be ", a(S->idx(v)));
        return true;
      }
    return false;
  }
  // ---- distance
  void distance(bool robust, double tCoef) {
    std::unique_ptr<SurfaceMesh> cover;
    EdgeData<double> cl;
    Surf* A = S.get();
    std::unique_ptr<Surf> AS;
    if (robust) { // the published construction: tufted cover, mollification, intrinsic Delaunay flips
      if (mesh.usesImplicitTwin()) {
        cover = mesh.copy();
        cl = g.edgeLengths.reinterpretTo(*cover);
      } else {
        cover = mesh.copyToSurfaceMesh();
        cl = g.edgeLengths.reinterpretTo(*cover);
        buildIntrinsicTuftedCover(*cover, cl);
      }
      mollifyIntrinsic(*cover, cl, 1e-5);
      flipToDelaunay(*cover, cl);
      AS.reset(new Surf(*cover, cl));
      A = AS.get();
      if (A->skinny < 1e-3) return; // the operators are too badly conditioned to compare
    }
    std::string tag = cat(robust ? "robust " : "", "t=", tCoef);
    Mat L = A->lap(), M = A->mass();
    double t = tCoef * A->mean * A->mean;
    Eigen::PartialPivLU<Mat> heat(M + t * L);
    Eigen::PartialPivLU<Mat> poisson(L + 1e-6 * Mat::Identity(A->nV, A->nV));
    HeatMethodDistanceSolver solver(g, tCoef, robust);
    VertexData<double> first;
    for (size_t k = 0; k < sets.size(); k++) {
      auto& s = sets[k];
      ctx.transition();
      Vec rhs = Vec::Zero(S->nV);
      for (auto& p : s) rhs += S->weights(p);
      Vec u = heat.solve(rhs);
      std::vector<C> X;
      bool ok = A->unit(u, X);
      for (size_t i = 0; i < A->nV; i++)
        if (u(i) < 1e-9 * u.maxCoeff()) ok = false;
      VertexData<double> d = solver.computeDistance(s);
      if (k == 0) first = d;
      for (Vertex v : mesh.vertices())
        if (ok && !std::isfinite(d[v])) {
          bad("distance " + tag, cat("from ", str(s), " at ", v, " is ", d[v]));
          return;
        }
      if (!ok) {
        ctx.outcome("no clear gradient");
        continue;
      }
      Vec div = A->div(X), phi = poisson.solve(div);
      double sh = 0, wn = 0;
      for (auto& p : s) {
        auto q = S->inFace(p);
        const Tri& T = S->tri(q.first);
        for (int i = 0; i < 3; i++) {
          sh += q.second[i] * (phi(T.v[i]) - std::abs(T.at(q.second) - T.q[i]));
          wn += q.second[i];
        }
      }
      Vec want = phi.array() - sh / wn;
      std::string why;
      if (differ(want, d, 1e-6, why)) bad("distance " + tag, cat("from ", str(s), why));
      ctx.outcome(robust ? "robust distance" : "distance");
      Vec raw = solver.computeDistanceRHS(rhs);
      if (!((raw - phi).cwiseAbs().maxCoeff() <= 1e-5 * (1 + phi.cwiseAbs().maxCoeff()))) bad("computeDistanceRHS " + tag, cat("from ", str(s)));
      if (s.size() == 1) {
        VertexData<double> d1 = solver.computeDistance(s[0]);
        if ((d1.toVector() - d.toVector()).cwiseAbs().maxCoeff() > 1e-9) bad("computeDistance(point)", str(s));
        if (s[0].type == SurfacePointType::Vertex) {
          d1 = solver.computeDistance(s[0].vertex);
          if ((d1.toVector() - d.toVector()).cwiseAbs().maxCoeff() > 1e-9) bad("computeDistance(vertex)", str(s));
          if (tCoef == 1 && !robust) {
            d1 = heatMethodDistance(g, s[0].vertex);
            if ((d1.toVector() - d.toVector()).cwiseAbs().maxCoeff() > 1e-9) bad("heatMethodDistance", str(s));
          }
        }
      } else {
        std::vector<Vertex> vs;
        for (auto& p : s)
          if (p.type == SurfacePointType::Vertex) vs.push_back(p.vertex);
        if (vs.size() == s.size()) {
          VertexData<double> d1 = solver.computeDistance(vs);
          if ((d1.toVector() - d.toVector()).cwiseAbs().maxCoeff() > 1e-9) bad("computeDistance(vertices)", str(s));
        }
      }
    }
    VertexData<double> again = solver.computeDistance(sets[0]);
    for (Vertex v : mesh.vertices())
      if (again[v] != first[v] && !(std::isnan(first[v]) && std::isnan(again[v]))) bad("history dependent " + tag, cat("at ", v, " ", first[v], " then ", again[v]));
  }
  // ---- scalar extension
  Vec extend(const Eigen::PartialPivLU<Mat>& heat, const std::vector<SurfacePoint>& s, const std::vector<double>& val, bool& ok) {
    Vec a = Vec::Zero(S->nV), b = a;
    for (size_t i = 0; i < s.size(); i++) {
      Vec w = S->weights(s[i]);
      a += val[i] * w;
      b += w;
    }
    Vec x = heat.solve(a), y = heat.solve(b);
    if (y.minCoeff() < 1e-8 * y.maxCoeff()) ok = false; // no heat arrives (or obtuse angles make it negative)
    return x.array() / y.array();
  }
  void scalar(double tCoef) {
    Eigen::PartialPivLU<Mat> heat(S->mass() + tCoef * S->mean * S->mean * S->lap());
    VectorHeatMethodSolver solver(g, tCoef);
    std::string tag = cat(" t=", tCoef);
    for (auto& s : sets) {
      ctx.transition();
      std::vector<std::tuple<SurfacePoint, double>> in;
      std::vector<std::tuple<Vertex, double>> inV;
      std::vector<double> val;
      for (size_t i = 0; i < s.size(); i++) {
        val.push_back(i == 0 ? 2. : i == 1 ? -3.5 : 0.);
        in.emplace_back(s[i], val[i]);
        if (s[i].type == SurfacePointType::Vertex) inV.emplace_back(s[i].vertex, val[i]);
      }
      bool ok = true;
      Vec want = extend(heat, s, val, ok);
      if (!ok) continue;
      std::string why;
      VertexData<double> got = solver.extendScalar(in);
      if (differ(want, got, 1e-8, why)) bad("extendScalar" + tag, cat("from ", str(s), why));
      if (inV.size() == s.size()) {
        got = solver.extendScalar(inV);
        if (differ(want, got, 1e-8, why)) bad("extendScalar(vertices)" + tag, cat("from ", str(s), why));
      }
      ctx.outcome("scalar");
    }
    for (Vertex v : mesh.vertices())
      if (!std::isnan(solver.extendScalar(std::vector<std::tuple<Vertex, double>>{})[v])) bad("extendScalar of nothing", "is not NaN");
    VertexData<double> r(mesh);
    for (Vertex v : mesh.vertices()) r[v] = std::sin(3. * v.getIndex() + 1);
    std::string why;
    if (differ(heat.solve(r.toVector()), solver.scalarDiffuse(r), 1e-8, why)) bad("scalarDiffuse" + tag, why);
    if (S->connected()) {
      Vec b = r.toVector();
      b.array() -= b.mean();
      Vec x = solver.poissonSolve(VertexData<double>(mesh, b)).toVector();
      if (!((S->lap() * x - b).cwiseAbs().maxCoeff() <= 1e-6 * (1 + x.cwiseAbs().maxCoeff()))) bad("poissonSolve", cat("residual ", (S->lap() * x - b).cwiseAbs().maxCoeff()));
    }
  }
  // ---- tangent vectors: the vertex tangent spaces and the connection come from the geometry
  void vectors(double tCoef) {
    std::string tag = cat(" t=", tCoef);
    g.requireHalfedgeVectorsInVertex();
    g.requireHalfedgeVectorsInFace();
    g.requireTransportVectorsAlongHalfedge();
    size_t n = S->nV;
    auto w = S->cotans();
    double t = tCoef * S->mean * S->mean;
    CMat K = S->mass().cast<C>();
    Mat AL = Mat::Zero(3 * n, 3 * n); // affine
    for (size_t i = 0; i < n; i++)
      for (int p = 0; p < 3; p++) AL(3 * i + p, 3 * i + p) = S->mass()(i, i);
    for (Halfedge h : mesh.halfedges()) {
      size_t i = S->idx(h.vertex()), j = S->idx(h.twin().vertex());
      double we = t * w[S->idx(h.edge())];
      C ei = g.halfedgeVectorsInVertex[h], ej = g.halfedgeVectorsInVertex[h.twin()];
      C R = -(ei / std::abs(ei)) / (ej / std::abs(ej)); // transport from j to i
      K(i, i) += we;
      K(i, j) -= we * R;
      Mat T(3, 3);
      T << R.real(), -R.imag(), -ei.real(), R.imag(), R.real(), -ei.imag(), 0, 0, 1;
      AL.block(3 * i, 3 * i, 3, 3) += we * Mat::Identity(3, 3);
      AL.block(3 * i, 3 * j, 3, 3) -= we * T;
    }
    Eigen::PartialPivLU<CMat> vheat(K);
    Eigen::PartialPivLU<Mat> sheat(S->mass() + t * S->lap()), aheat(AL);
    VectorHeatMethodSolver solver(g, tCoef);
    VertexData<C> r(mesh);
    for (Vertex v : mesh.vertices()) r[v] = C(std::sin(3. * v.getIndex() + 1), std::cos(2. * v.getIndex()));
    CVec dv = vheat.solve(r.toVector());
    {
      VertexData<C> got = solver.vectorDiffuse(r);
      for (Vertex v : mesh.vertices())
        if (!(std::abs(got[v] - dv(S->idx(v))) <= 1e-8 * (1 + dv.cwiseAbs().maxCoeff()))) bad("vectorDiffuse" + tag, cat("at ", v));
    }
    // the value at a vertex of a unit vector given in the tangent space of a point, per vertex with its weight
    auto spread = [&](const SurfacePoint& p, C x) {
      CVec b = CVec::Zero(n);
      if (p.type == SurfacePointType::Vertex) b(S->idx(p.vertex)) += x;
      if (p.type == SurfacePointType::Edge) {
        Halfedge h = p.edge.halfedge();
        C a = g.halfedgeVectorsInVertex[h], c = g.halfedgeVectorsInVertex[h.twin()];
        b(S->idx(h.vertex())) += (1 - p.tEdge) * x * a / std::abs(a);
        b(S->idx(h.twin().vertex())) -= p.tEdge * x * c / std::abs(c);
      }
      if (p.type == SurfacePointType::Face) {
        int i = 0;
        for (Halfedge h : p.face.adjacentHalfedges()) {
          C a = g.halfedgeVectorsInVertex[h], c = g.halfedgeVectorsInFace[h];
          b(S->idx(h.vertex())) += p.faceCoords[i++] * x * (a / std::abs(a)) / (c / std::abs(c));
        }
      }
      return b;
    };
    CVec section(n); // for the log maps
    for (auto& s : sets) {
      ctx.transition();
      std::vector<std::tuple<SurfacePoint, Vector2>> in;
      std::vector<std::tuple<Vertex, Vector2>> inV;
      std::vector<double> mag;
      CVec b = CVec::Zero(n);
      for (size_t i = 0; i < s.size(); i++) {
        C x = i == 0 ? C(1.2, -.5) : i == 1 ? C(-.3, 2) : C(.4, .1);
        mag.push_back(std::abs(x));
        b += spread(s[i], x / std::abs(x));
        in.emplace_back(s[i], Vector2::fromComplex(x));
        if (s[i].type == SurfacePointType::Vertex) inV.emplace_back(s[i].vertex, Vector2::fromComplex(x));
      }
      CVec d = vheat.solve(b);
      bool ok = d.cwiseAbs().minCoeff() > 1e-7 * d.cwiseAbs().maxCoeff();
      Vec m = Vec::Constant(n, mag[0]);
      if (s.size() > 1) m = extend(sheat, s, mag, ok);
      VertexData<Vector2> got = solver.transportTangentVectors(in), gv;
      if (inV.size() == s.size()) gv = inV.size() == 1 ? solver.transportTangentVector(std::get<0>(inV[0]), std::get<1>(inV[0])) : solver.transportTangentVectors(inV);
      if (!ok) {
        ctx.outcome("no vector heat");
        continue;
      }
      for (Vertex v : mesh.vertices()) {
        size_t i = S->idx(v);
        C want = m(i) * d(i) / std::abs(d(i));
        if (!(std::abs(C(got[v]) - want) <= 1e-6 * (1 + std::abs(want)))) {
          bad(cat("transportTangentVectors ", s[0].type == SurfacePointType::Vertex ? "vertex" : s[0].type == SurfacePointType::Edge ? "edge" : "face", s.size() > 1 ? "+" : "", tag), cat("from ", str(s), "at ", v, " ", got[v], " should be ", Vector2::fromComplex(want)));
          break;
        }
        if (gv.size() && !(norm(gv[v] - got[v]) <= 1e-9)) bad("transportTangentVectors(vertices)" + tag, str(s));
      }
      ctx.outcome("transport");
    }
    // log maps
    Mat L = S->lap();
    auto lsolve = [&](Vec b) {
      Mat A = L + Mat::Constant(n, n, 1.); // the solution with zero sum
      return Vec(Eigen::PartialPivLU<Mat>(A).solve(b));
    };
    std::map<size_t, std::array<std::vector<C>, 3>> logs; // by vertex index; empty = no answer to compare
    for (Vertex src : mesh.vertices()) {
      auto& out = logs[src.getIndex()];
      size_t s = S->idx(src);
      CVec e = CVec::Zero(n);
      e(s) = 1;
      CVec H = vheat.solve(e);
      bool ok = H.cwiseAbs().minCoeff() > 1e-7 * H.cwiseAbs().maxCoeff();
      if (!ok) continue;
      for (size_t i = 0; i < n; i++) H(i) /= std::abs(H(i));
      { // affine local
        Vec b = Vec::Zero(3 * n);
        b(3 * s + 2) = 1;
        Vec x = aheat.solve(b);
        Mat AA = Mat::Zero(3 * n, 3 * n); // adaptive: translations written in the parallel frame of the source
        for (size_t i = 0; i < n; i++)
          for (int p = 0; p < 3; p++) AA(3 * i + p, 3 * i + p) = S->mass()(i, i);
        for (Halfedge h : mesh.halfedges()) {
          size_t i = S->idx(h.vertex()), j = S->idx(h.twin().vertex());
          double we = t * w[S->idx(h.edge())];
          C q = -C(g.halfedgeVectorsInVertex[h]) / H(i);
          Mat T = Mat::Identity(3, 3);
          T(0, 2) = q.real();
          T(1, 2) = q.imag();
          AA.block(3 * i, 3 * i, 3, 3) += we * Mat::Identity(3, 3);
          AA.block(3 * i, 3 * j, 3, 3) -= we * T;
        }
        Vec y = Eigen::PartialPivLU<Mat>(AA).solve(b);
        double mx = 0, mn = 1e300, my = 0, ny = 1e300;
        for (size_t i = 0; i < n; i++) {
          mx = std::max(mx, std::abs(x(3 * i + 2)));
          mn = std::min(mn, std::abs(x(3 * i + 2)));
          my = std::max(my, std::abs(y(3 * i + 2)));
          ny = std::min(ny, std::abs(y(3 * i + 2)));
        }
        for (size_t i = 0; i < n; i++) {
          if (mn > 1e-6 * mx) out[1].push_back(C(x(3 * i), x(3 * i + 1)) / x(3 * i + 2) / H(i));
          if (ny > 1e-6 * my) out[2].push_back(C(y(3 * i), y(3 * i + 1)) / y(3 * i + 2));
        }
      }
      { // vector heat: diffuse the outward unit ball, integrate to a distance, and combine with the angle
        CVec b = CVec::Zero(n);
        for (auto& T : S->T)
          for (int c = 0; c < 3; c++) {
            if (T.v[c] != s || T.h[c].vertex() != src) continue;
            double th = T.ang(c);
            C ax = (T.q[(c + 1) % 3] - T.q[c]);
            ax /= std::abs(ax);
            C I[3] = {0, 0, 0}; // per corner, integral over the corner arc of (outward unit vector) * (derivative of its hat function), in the frame of this face
            const int N = 200;
            static double xs[3] = {-.7745966692414834, 0, .7745966692414834}, ws[3] = {5. / 9, 8. / 9, 5. / 9};
            for (int k = 0; k < N; k++)
              for (int q = 0; q < 3; q++) {
                double a = th * (k + .5 + .5 * xs[q]) / N;
                C o = ax * std::polar(1., a);
                for (int m = 0; m < 3; m++) I[m] += ws[q] * .5 * th / N * o * (std::conj(T.grad(m)) * o).real();
              }
            // neighbours: relative to the edge from them to the source; centre: relative to the first edge of the corner
            Halfedge h1 = T.h[c], h2 = T.h[(c + 2) % 3]; // src->a and b->src
            auto put = [&](size_t vtx, C val, C edgeInFace, Vector2 edgeInVertex) {
              C d = edgeInFace / std::abs(edgeInFace), ev = edgeInVertex;
              b(vtx) += val / d * ev / std::abs(ev);
            };
            put(T.v[(c + 1) % 3], I[(c + 1) % 3], T.q[c] - T.q[(c + 1) % 3], g.halfedgeVectorsInVertex[h1.twin()]);
            put(T.v[(c + 2) % 3], I[(c + 2) % 3], T.q[c] - T.q[(c + 2) % 3], g.halfedgeVectorsInVertex[h2]);
            put(T.v[c], I[c], T.q[(c + 1) % 3] - T.q[c], g.halfedgeVectorsInVertex[h1]);
          }
        CVec R = vheat.solve(b);
        for (size_t i = 0; i < n; i++)
          if (i != s && !(std::abs(R(i)) > 1e-6 * R.cwiseAbs().maxCoeff())) ok = false;
        if (ok && S->connected()) {
          for (size_t i = 0; i < n; i++) R(i) = i == s ? C(0) : R(i) / std::abs(R(i));
          Vec d = Vec::Zero(n);
          for (Halfedge h : mesh.halfedges()) {
            size_t i = S->idx(h.vertex()), j = S->idx(h.twin().vertex());
            C ei = g.halfedgeVectorsInVertex[h], ej = g.halfedgeVectorsInVertex[h.twin()];
            C T = -(ei / std::abs(ei)) / (ej / std::abs(ej));
            C avg = .5 * (R(i) + T * R(j));
            d(i) -= w[S->idx(h.edge())] * (std::conj(avg) * ei).real();
          }
          Vec D = lsolve(d);
          for (size_t i = 0; i < n; i++) out[0].push_back(R(i) / H(i) * (D(i) - D(s)));
        }
      }
      for (int k = 0; k < 3; k++) {
        static const LogMapStrategy strat[3] = {LogMapStrategy::VectorHeat, LogMapStrategy::AffineLocal, LogMapStrategy::AffineAdaptive};
        static const char* nm[3] = {"VectorHeat", "AffineLocal", "AffineAdaptive"};
        if (out[k].empty()) continue;
        ctx.transition();
        double sc = 0;
        for (auto& z : out[k]) sc = std::max(sc, std::abs(z));
        for (int viaPoint = 0; viaPoint < 2; viaPoint++) {
          VertexData<Vector2> got = viaPoint ? solver.computeLogMap(SurfacePoint(src), strat[k]) : solver.computeLogMap(src, strat[k]);
          for (Vertex v : mesh.vertices())
            if (!(std::abs(C(got[v]) - out[k][S->idx(v)]) <= 1e-5 * (1 + sc))) {
              bad(cat("computeLogMap ", nm[k], tag), cat("from ", src, " at ", v, " ", got[v], " should be ", Vector2::fromComplex(out[k][S->idx(v)])));
              break;
            }
        }
        ctx.outcome(cat("log ", nm[k]));
      }
    }
    // log maps of points in edges and faces: the blend of those of the vertices, in the tangent space of the point
    for (auto& p : pts) {
      if (p.type == SurfacePointType::Vertex) continue;
      for (int k = 0; k < (deep ? 3 : 2); k++) {
        static const LogMapStrategy strat[3] = {LogMapStrategy::VectorHeat, LogMapStrategy::AffineLocal, LogMapStrategy::AffineAdaptive};
        std::vector<C> want(n, 0.);
        bool ok = true;
        auto add = [&](Vertex v, double wt, C rot) {
          auto& o = logs[v.getIndex()][k];
          if (o.empty()) ok = false;
          else
            for (size_t i = 0; i < n; i++) want[i] += wt * o[i] * rot / std::abs(rot);
        };
        if (p.type == SurfacePointType::Edge) {
          Halfedge h = p.edge.halfedge();
          add(h.vertex(), 1 - p.tEdge, 1. / C(g.halfedgeVectorsInVertex[h]));
          add(h.twin().vertex(), p.tEdge, -1. / C(g.halfedgeVectorsInVertex[h.twin()]));
        } else {
          int i = 0;
          for (Halfedge h : p.face.adjacentHalfedges()) add(h.vertex(), p.faceCoords[i++], C(g.halfedgeVectorsInFace[h]) / C(g.halfedgeVectorsInVertex[h]));
        }
        if (!ok) continue;
        ctx.transition();
        double sc = 0;
        for (auto& z : want) sc = std::max(sc, std::abs(z));
        VertexData<Vector2> got = solver.computeLogMap(p, strat[k]);
        for (Vertex v : mesh.vertices())
          if (!(std::abs(C(got[v]) - want[S->idx(v)]) <= 1e-5 * (1 + sc))) {
            bad(cat("computeLogMap of a point", tag), cat("from ", p, " at ", v, " ", got[v], " should be ", Vector2::fromComplex(want[S->idx(v)])));
            break;
          }
        ctx.outcome("log of a point");
      }
    }
  }
};

// On a fine flat grid everything is close to the plain geometric answer; this keeps the references above honest.
static void flat(Ctx& ctx, int n, int style) {
  if (!ctx.begin(cat("flat", n, "-", style))) return;
  auto s = geo::planarGrid(n, n, style);
  suite::In in = suite::from(s);
  in.build();
  ctx.state(hashStr(in.name));
  auto& mesh = *in.mesh;
  auto& g = *in.g;
  g.requireHalfedgeVectorsInVertex();
  HeatMethodDistanceSolver hs(g), hr(g, 1., true);
  VectorHeatMethodSolver vs(g);
  for (Vertex src : mesh.vertices()) {
    Vector3 p = s.p[src.getIndex()];
    if (p.x < 2 || p.y < 2 || p.x > n - 2 || p.y > n - 2) continue;
    ctx.transition();
    auto err = [&](const char* what, const VertexData<double>& d, double tol) {
      for (Vertex v : mesh.vertices()) {
        double want = norm(s.p[v.getIndex()] - p);
        if (!(std::abs(d[v] - want) <= tol * (1 + want))) {
          ctx.fail(cat(what, "|flat"), cat(what, " on a flat grid from ", src, " at ", v, ": ", d[v], ", true distance ", want));
          break;
        }
      }
    };
    err("heat distance", hs.computeDistance(src), .3);
    err("robust heat distance", hr.computeDistance(src), .3);
    Halfedge h = src.halfedge();
    Vector3 ex = unit(s.p[h.tipVertex().getIndex()] - p);
    C fr = C(ex.x, ex.y); // direction of the first axis of the tangent space
    for (LogMapStrategy st : {LogMapStrategy::VectorHeat, LogMapStrategy::AffineLocal, LogMapStrategy::AffineAdaptive}) {
      auto lg = vs.computeLogMap(src, st);
      for (Vertex v : mesh.vertices()) {
        Vector3 q = s.p[v.getIndex()] - p;
        C want = C(q.x, q.y) / fr;
        // (the vector heat variant is known to underestimate lengths near the source: judge its direction and a factor of 2.5)
        C rat = norm(q) > 0 ? C(lg[v]) / want : C(1);
        bool close = st == LogMapStrategy::VectorHeat ? std::abs(std::arg(rat)) < .35 && std::abs(rat) > .4 && std::abs(rat) < 1.8 : std::abs(C(lg[v]) - want) <= .3 * (1 + std::abs(want));
        if (norm(q) < 2.3 && !close) {
          ctx.fail(cat("log map ", (int)st, "|flat"), cat("log map on a flat grid from ", src, " at ", v, ": ", lg[v], ", true value ", Vector2::fromComplex(want)));
          break;
        }
      }
    }
    for (int k = 0; k < 6; k++) {
      C x = std::polar(2., k * 1.1);
      auto tr = vs.transportTangentVector(src, Vector2::fromComplex(x));
      for (Vertex v : mesh.vertices()) {
        if (v.isBoundary()) continue;
        Vector3 e = unit(s.p[v.halfedge().tipVertex().getIndex()] - s.p[v.getIndex()]);
        C want = x * fr / C(e.x, e.y);
        if (!(std::abs(C(tr[v]) - want) <= .2)) {
          ctx.fail("transport|flat", cat("transport on a flat grid from ", src, " at ", v, ": ", tr[v], ", true value ", Vector2::fromComplex(want)));
          break;
        }
      }
    }
  }
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C15";
  o.technique = "explicit enumeration of inputs and sources against dense reference implementations";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "a result outside numerical tolerance of the published discrete algorithm, or dependence on earlier solves";
  o.assumptions = {"faces with no clear gradient direction (exact symmetries) and regions no heat reaches are not compared"};
  o.caseCpuLimit = 120;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    auto all = [&](Case& c, bool man) {
      for (double t : {1., .25}) {
        c.distance(false, t);
        c.scalar(t);
        if (man) c.vectors(t);
      }
      c.distance(true, 1.);
    };
    auto shapes = suite::triShapes(th);
    for (auto& s : shapes) {
      if (!ctx.begin(s.name)) continue;
      ctx.state(hashStr(s.name));
      suite::In in = suite::from(s);
      in.build();
      Case c(ctx, s.name, *in.mesh, *in.g, th);
      all(c, true);
    }
    for (auto& s : shapes) { // meshes with deleted elements
      if (!ctx.begin(s.name + "-holes")) continue;
      suite::In in = suite::from(s);
      in.build();
      if (!suite::punch(in)) continue;
      ctx.state(hashStr(in.name));
      Case c(ctx, in.name, *in.mesh, *in.g, th);
      all(c, true);
    }
    auto glue = [&](size_t nf, std::vector<double> lens, bool self, size_t stride) {
      size_t k = 0;
      suite::glued(nf, lens, self, [&](suite::In& in) {
        if (k++ % stride) return;
        if (!ctx.begin(in.name)) return;
        ctx.state(hashStr(in.name));
        in.build();
        if (!in.M->valid || !gen::connected(in.P)) return;
        Case c(ctx, in.name, *in.mesh, *in.g, false);
        all(c, true);
      });
    };
    glue(1, {1, 1.5}, true, 1);
    glue(2, {1, 1.5}, true, 1);
    glue(3, {1}, true, th ? 1 : 3);
    if (th) glue(3, {1, 1.4}, false, 5);
    struct G {
      const char* n;
      gen::Polys P;
      geo::Pts p;
    };
    std::vector<G> gs = {{"book3", gen::book(3), {{0, 0, 0}, {0, 0, 1}, {1, 0, .3}, {-.6, .7, .5}, {-.5, -.9, .4}}},
                         {"book4", gen::book(4), {{0, 0, 0}, {0, 0, 1}, {1, 0, .3}, {0, .8, .6}, {-.9, 0, .4}, {0, -.7, .5}}},
                         {"hourglass", {{0, 1, 2}, {0, 3, 4}}, {{0, 0, 0}, {1, 0, 0}, {.4, .9, 0}, {-1, 0, .2}, {-.4, -.8, .3}}},
                         {"flipped", {{0, 1, 2}, {1, 3, 2}, {1, 3, 4}}, {{0, 0, 0}, {1, 0, 0}, {.4, .9, 0}, {1.3, .8, .2}, {1.9, .1, .4}}},
                         {"moebius", {{0, 1, 2}, {1, 3, 2}, {2, 3, 4}, {3, 0, 4}, {4, 0, 1}}, {{0, 0, 0}, {1, 0, .1}, {1.2, 1, 0}, {.3, 1.5, .6}, {-.6, .8, .2}}},
                         {"finTetra", {{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {2, 3, 0}, {0, 1, 4}}, {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {1, -1, -1}}}};
    for (auto& s : gs) {
      if (!ctx.begin(s.n)) continue;
      ctx.state(hashStr(s.n));
      auto e = geo::general(s.P, s.p);
      Case c(ctx, s.n, *e.mesh, *e.geom, th);
      all(c, false);
    }
    for (int n : {8, th ? 12 : 9})
      for (int st : {1, 2}) flat(ctx, n, st);
  });
}
