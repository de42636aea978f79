// C33: the signed heat method on triangle meshes, against a dense reference: every vertex path of up to three edges,
// every segment and pair of segments through faces, segments along edges, loops around vertices, point sources, with
// every combination of options.
#include "suite.h"
#include "ops.h"
#include "geometrycentral/surface/signed_heat_method.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using namespace ops;

static std::string sh(const SurfacePoint& p) {
  if (p.type == SurfacePointType::Vertex) return cat("v", p.vertex.getIndex());
  if (p.type == SurfacePointType::Edge) return cat("e", p.edge.getIndex(), ":", p.tEdge);
  return cat("f", p.face.getIndex(), ":", p.faceCoords);
}
struct Problem {
  std::vector<Curve> curves;
  std::vector<SurfacePoint> points;
  bool flatOnly = false; // compare only if the ends of unsigned curves are flat interior vertices
  std::string str() const {
    std::string r;
    for (auto& c : curves) {
      r += c.isSigned ? "signed(" : "unsigned(";
      for (auto& p : c.nodes) r += cat(sh(p), " ");
      r += ") ";
    }
    for (auto& p : points) r += cat(sh(p), " ");
    return r;
  }
};
struct Case {
  Ctx& ctx;
  std::string id;
  ManifoldSurfaceMesh& mesh;
  IntrinsicGeometryInterface& g;
  geod::Metric& M;
  bool deep;
  std::unique_ptr<Surf> S;
  std::set<std::string> seen;
  Mat L;
  CMat Mc, Lc;
  std::vector<C> dir; // per (face*3+corner) unit direction of the edge of that side, with the orientation of the edge
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i, ManifoldSurfaceMesh& m, IntrinsicGeometryInterface& g_, geod::Metric& M_, bool deep_) : ctx(c), id(i), mesh(m), g(g_), M(M_), deep(deep_) {
    g.requireEdgeLengths();
    S.reset(new Surf(mesh, g.edgeLengths));
    L = S->lap();
    Mc = CMat::Zero(S->nE, S->nE);
    Lc = Mc;
    for (auto& t : S->T) {
      C d[3];
      for (int i = 0; i < 3; i++) {
        d[i] = t.q[(i + 1) % 3] - t.q[i];
        d[i] /= std::abs(d[i]);
        if (t.h[i] != t.h[i].edge().halfedge()) d[i] = -d[i];
        dir.push_back(d[i]);
      }
      for (int i = 0; i < 3; i++) {
        Mc(t.e[i], t.e[i]) += t.area / 3;
        for (int j = 0; j < 3; j++) // the Crouzeix-Raviart function of side i is 1 - 2 * (coordinate of the opposite corner)
          Lc(t.e[i], t.e[j]) += std::conj(d[i]) * d[j] * (4 * t.area * (std::conj(t.grad((i + 2) % 3)) * t.grad((j + 2) % 3)).real());
      }
    }
  }
  // a face containing both points, and their coordinates there
  bool face(const SurfacePoint& a, const SurfacePoint& b, size_t& k, Vector3& ca, Vector3& cb) {
    for (k = 0; k < S->T.size(); k++) {
      auto& t = S->T[k];
      bool ha, hb;
      ca = in(t, a, ha);
      cb = in(t, b, hb);
      if (ha && hb) return true;
    }
    return false;
  }
  Vector3 in(const Tri& t, const SurfacePoint& p, bool& has) {
    has = true;
    Vector3 b = Vector3::zero();
    if (p.type == SurfacePointType::Face && p.face == t.f) return p.faceCoords;
    for (int i = 0; i < 3; i++) {
      if (p.type == SurfacePointType::Vertex && t.h[i].vertex() == p.vertex) {
        b[i] = 1;
        return b;
      }
      if (p.type == SurfacePointType::Edge && t.h[i].edge() == p.edge) {
        bool same = t.h[i] == p.edge.halfedge();
        b[i] = same ? 1 - p.tEdge : p.tEdge;
        b[(i + 1) % 3] = same ? p.tEdge : 1 - p.tEdge;
        return b;
      }
    }
    has = false;
    return b;
  }
  // side of the face containing both coordinates, or -1
  static int side(Vector3 a, Vector3 b) {
    for (int i = 0; i < 3; i++)
      if (a[i] == 0 && b[i] == 0) return (i + 1) % 3;
    return -1;
  }
  double segLen(const SurfacePoint& a, const SurfacePoint& b) {
    size_t k;
    Vector3 x, y;
    face(a, b, k, x, y);
    return std::abs(S->T[k].at(x) - S->T[k].at(y));
  }
  Vec segMid(const SurfacePoint& a, const SurfacePoint& b) {
    return .5 * (S->weights(a) + S->weights(b));
  }
  bool source(const Problem& P, CVec& X0) {
    X0 = CVec::Zero(S->nE);
    bool ok = true;
    for (auto& c : P.curves) {
      for (size_t i = 0; i + 1 < c.nodes.size(); i++) {
        size_t k;
        Vector3 a, b;
        face(c.nodes[i], c.nodes[i + 1], k, a, b);
        auto& t = S->T[k];
        C seg = t.at(b) - t.at(a);
        int s = side(a, b);
        if (c.isSigned) {
          if (s >= 0) X0(t.e[s]) += C(0, 1) * seg * std::conj(dir[3 * k + s]);
          else
            for (int j = 0; j < 3; j++) X0(t.e[j]) += C(0, 1) * seg * std::conj(dir[3 * k + j]);
        } else { // spread the normal of either side over the other two edges of the face on that side
          for (Halfedge h : {t.h[s], t.h[s].twin()}) {
            if (!h.isInterior()) continue;
            size_t kk = S->fi[h.face().getIndex()];
            auto& u = S->T[kk];
            for (int x = 0; x < 3; x++)
              if (u.h[x] == h)
                for (int j : {(x + 1) % 3, (x + 2) % 3}) X0(u.e[j]) += C(0, 1) * (u.q[(x + 1) % 3] - u.q[x]) * std::conj(dir[3 * kk + j]);
          }
        }
      }
      if (!c.isSigned) // half arcs around the ends
        for (int end = 0; end < 2; end++) {
          Vertex v = end ? c.nodes.back().vertex : c.nodes[0].vertex, w = end ? c.nodes[c.nodes.size() - 2].vertex : c.nodes[1].vertex;
          if (v.isBoundary() || std::abs(M.sum[v] - 2 * geod::PI) > 1e-9) {
            ok = false;
            continue;
          }
          double len = segLen(v, w), to = 0;
          for (Halfedge h : v.outgoingHalfedges())
            if (h.tipVertex() == w) to = M.phi[h];
          arc(v, to + geod::PI / 2, geod::PI, len / geod::PI, X0);
        }
    }
    for (auto& p : P.points) arc(p.vertex, -1, 1e9, 1 / M.sum[p.vertex], X0);
    return ok;
  }
  // integral of the outward unit vectors over the arc [from, from+width] around v, spread over the edges of each face
  void arc(Vertex v, double from, double width, double scale, CVec& X0) {
    for (size_t k = 0; k < S->T.size(); k++) {
      auto& t = S->T[k];
      for (int i = 0; i < 3; i++) {
        if (t.h[i].vertex() != v) continue;
        double a0 = M.phi[t.h[i]], th = t.ang(i);
        C base = (t.q[(i + 1) % 3] - t.q[i]) / std::abs(t.q[(i + 1) % 3] - t.q[i]);
        std::vector<std::pair<double, double>> pieces;
        if (width > 100) pieces.push_back({0, th});
        else
          for (int turn = -2; turn <= 2; turn++) {
            double lo = std::max(0., from + turn * M.sum[v] - a0), hi = std::min(th, from + width + turn * M.sum[v] - a0);
            if (hi > lo) pieces.push_back({lo, hi});
          }
        for (auto& p : pieces) {
          C I = base * C(0, -1) * (std::polar(1., p.second) - std::polar(1., p.first)) * scale;
          for (int j = 0; j < 3; j++) X0(t.e[j]) += I * std::conj(dir[3 * k + j]);
        }
      }
    }
  }
  bool solve(const Problem& P, double tCoef, const SignedHeatOptions& o, Vec& phi) {
    CVec X0;
    if (!source(P, X0)) return false;
    if (X0.cwiseAbs().maxCoeff() < 1e-9) return false; // a loop within one face cancels out
    double t = tCoef * .25 * S->mean * S->mean;
    CMat K = Mc + t * Lc;
    CVec X;
    size_t nE = S->nE, n = S->nV;
    if (!o.preserveSourceNormals) X = Eigen::PartialPivLU<CMat>(K).solve(X0);
    else {
      std::vector<Vec> rows;
      for (auto& c : P.curves)
        for (size_t i = 0; i + 1 < c.nodes.size(); i++) {
          size_t k;
          Vector3 a, b;
          face(c.nodes[i], c.nodes[i + 1], k, a, b);
          auto& T = S->T[k];
          C seg = T.at(b) - T.at(a);
          Vec r = Vec::Zero(2 * nE);
          int s = side(a, b);
          if (s >= 0) r(T.e[s]) = 1;
          else
            for (int j = 0; j < 3; j++) {
              double w = 1 - (a[(j + 2) % 3] + b[(j + 2) % 3]); // at the midpoint
              C z = std::conj(dir[3 * k + j]) * seg;             // component along the segment of the two basis vectors
              r(T.e[j]) += w * z.real();
              r(nE + T.e[j]) += w * z.imag();
            }
          rows.push_back(r);
        }
      size_t m = rows.size();
      if (!m) X = Eigen::PartialPivLU<CMat>(K).solve(X0);
      else {
        Mat A(m, 2 * nE);
        for (size_t i = 0; i < m; i++) A.row(i) = rows[i].transpose();
        Eigen::JacobiSVD<Mat> svd(A);
        if (svd.singularValues()(m - 1) < 1e-5 * svd.singularValues()(0)) return false;
        Mat F = Mat::Zero(2 * nE + m, 2 * nE + m);
        F.topLeftCorner(nE, nE) = K.real();
        F.block(0, nE, nE, nE) = -K.imag();
        F.block(nE, 0, nE, nE) = K.imag();
        F.block(nE, nE, nE, nE) = K.real();
        F.block(0, 2 * nE, 2 * nE, m) = A.transpose();
        F.block(2 * nE, 0, m, 2 * nE) = A;
        Vec r = Vec::Zero(2 * nE + m);
        r.head(nE) = X0.real();
        r.segment(nE, nE) = X0.imag();
        Vec x = Eigen::PartialPivLU<Mat>(F).solve(r);
        X.resize(nE);
        for (size_t i = 0; i < nE; i++) X(i) = C(x(i), x(nE + i));
      }
    }
    std::vector<C> Y;
    bool ok = true;
    double top = X.cwiseAbs().maxCoeff();
    for (size_t k = 0; k < S->T.size(); k++) {
      C y = 0;
      for (int i = 0; i < 3; i++) y += X(S->T[k].e[i]) * dir[3 * k + i];
      if (!(std::abs(y) > 1e-6 * top)) ok = false;
      Y.push_back(y / std::abs(y));
    }
    if (!ok) return false;
    Vec d = S->div(Y);
    auto wts = [&](const SurfacePoint& p) { return S->weights(p); };
    std::vector<std::vector<SurfacePoint>> groups; // points which get one common value
    std::vector<SurfacePoint> allp;
    for (auto& c : P.curves) allp.insert(allp.end(), c.nodes.begin(), c.nodes.end());
    allp.insert(allp.end(), P.points.begin(), P.points.end());
    if (o.levelSetConstraint == LevelSetConstraint::ZeroSet) groups.push_back(allp);
    if (o.levelSetConstraint == LevelSetConstraint::Multiple)
      for (auto& c : P.curves) groups.push_back(c.nodes);
    std::vector<Vec> rows;
    for (auto& gr : groups) {
      std::vector<Vec> have;
      for (size_t i = 1; i < gr.size(); i++) {
        Vec r = wts(gr[0]) - wts(gr[i]);
        if (r.norm() > 1e-12) rows.push_back(r);
      }
    }
    if (o.softLevelSetWeight >= 0) {
      Mat A = L + Mat::Constant(n, n, 1.);
      for (auto& r : rows) A += o.softLevelSetWeight * r * r.transpose();
      phi = Eigen::PartialPivLU<Mat>(A).solve(d);
    } else {
      // minimise over the space of functions satisfying the constraints
      Mat B = Mat::Identity(n, n);
      if (rows.size()) {
        Mat A(rows.size(), n);
        for (size_t i = 0; i < rows.size(); i++) A.row(i) = rows[i].transpose();
        Eigen::FullPivLU<Mat> lu(A);
        lu.setThreshold(1e-9);
        B = lu.kernel();
        B = Eigen::HouseholderQR<Mat>(B).householderQ() * Mat::Identity(n, B.cols());
      }
      Mat A = B.transpose() * (L + Mat::Constant(n, n, 1. / n)) * B;
      phi = B * Vec(Eigen::PartialPivLU<Mat>(A).solve(B.transpose() * d));
    }
    double sh = 0, wt = 0;
    if (P.curves.size()) {
      for (auto& c : P.curves)
        for (size_t i = 0; i + 1 < c.nodes.size(); i++) {
          double l = segLen(c.nodes[i], c.nodes[i + 1]);
          sh += l * segMid(c.nodes[i], c.nodes[i + 1]).dot(phi);
          wt += l;
        }
      phi.array() -= sh / wt;
    } else
      phi.array() -= phi.minCoeff();
    return true;
  }

  std::vector<Problem> problems() {
    std::vector<Problem> R;
    std::vector<Vertex> V;
    for (Vertex v : mesh.vertices()) V.push_back(v);
    auto curve = [&](std::vector<SurfacePoint> n, bool sg = true) {
      Problem p;
      Curve c;
      c.nodes = n;
      c.isSigned = sg;
      p.curves.push_back(c);
      R.push_back(p);
    };
    std::vector<std::vector<SurfacePoint>> loops;
    for (Halfedge h : mesh.halfedges()) {
      curve({h.tailVertex(), h.tipVertex()});
      curve({h.tailVertex(), h.tipVertex()}, false);
      for (Halfedge k : h.tipVertex().outgoingHalfedges()) {
        if (k.tipVertex() == h.tailVertex()) continue;
        if ((h.getIndex() + k.getIndex()) % 3 == 0) {
          curve({h.tailVertex(), h.tipVertex(), k.tipVertex()});
          curve({h.tailVertex(), h.tipVertex(), k.tipVertex()}, false);
        }
      }
      // along the edge
      if (h.getIndex() % 2 == 0 || deep) {
        double t = .3;
        curve({h.tailVertex(), SurfacePoint(h, t)});
        curve({SurfacePoint(h, t), h.tipVertex()});
        curve({SurfacePoint(h, t), SurfacePoint(h, .8)});
        if (h.isInterior()) {
          curve({SurfacePoint(h, t), SurfacePoint(h, .8), SurfacePoint(h.next(), .4)});
          curve({SurfacePoint(h, t), SurfacePoint(h.next(), .4)});
          curve({SurfacePoint(h, .6), h.next().tipVertex()});
          curve({h.next().tipVertex(), SurfacePoint(h, .6)});
          curve({SurfacePoint(h.face(), {.2, .5, .3}), SurfacePoint(h, .6)});
          curve({SurfacePoint(h.face(), {.2, .5, .3}), h.tailVertex()});
          curve({SurfacePoint(h.face(), {.2, .5, .3}), SurfacePoint(h.face(), {.6, .1, .3}), SurfacePoint(h.next(), .6)});
          if (h.twin().isInterior()) curve({h.next().tipVertex(), SurfacePoint(h, .6), SurfacePoint(h.twin().next(), .3)});
          loops.push_back({SurfacePoint(h.face(), {.2, .5, .3}), SurfacePoint(h.face(), {.6, .1, .3}), SurfacePoint(h.face(), {.3, .3, .4}), SurfacePoint(h.face(), {.2, .5, .3})});
        }
      }
    }
    for (Vertex v : mesh.vertices()) {
      Problem p;
      p.points = {v};
      R.push_back(p);
      p.points.push_back(V[(S->idx(v) * 5 + 1) % V.size()]);
      if (p.points[1].vertex != v) R.push_back(p);
      if (v.isBoundary()) continue;
      std::vector<SurfacePoint> link, ring;
      std::vector<Halfedge> out;
      for (Halfedge h = v.halfedge();;) { // counterclockwise
        out.push_back(h);
        h = h.next().next().twin();
        if (h == v.halfedge()) break;
      }
      for (Halfedge h : out) {
        link.push_back(h.tipVertex());
        ring.push_back(SurfacePoint(h, .4));
      }
      link.push_back(link[0]);
      ring.push_back(ring[0]);
      std::set<size_t> distinct;
      for (auto& q : link) distinct.insert(q.vertex.getIndex());
      if (distinct.size() + 1 == link.size()) {
        curve(link);
        loops.push_back(link);
      }
      curve(ring);
      loops.push_back(ring);
    }
    for (size_t i = 0; i < loops.size(); i++) { // several curves, curves and points
      Problem p;
      p.curves.resize(2);
      p.curves[0].nodes = loops[i];
      p.curves[1].nodes = loops[(i * 3 + 1) % loops.size()];
      if (i != (i * 3 + 1) % loops.size()) R.push_back(p);
      p.curves.resize(1);
      p.points = {V[i % V.size()]};
      R.push_back(p);
    }
    size_t lim = deep ? 100000 : 140;
    if (R.size() > lim) { // an even selection
      std::vector<Problem> q;
      for (size_t i = 0; i < lim; i++) q.push_back(R[i * R.size() / lim]);
      R = q;
    }
    return R;
  }
  void run() {
    auto ps = problems();
    SignedHeatSolver solver(g);
    for (size_t k = 0; k < ps.size(); k++) {
      auto& P = ps[k];
      std::vector<SignedHeatOptions> opts;
      for (bool pres : {false, true})
        for (int lc = 0; lc < 3; lc++) {
          SignedHeatOptions o;
          o.preserveSourceNormals = pres;
          o.levelSetConstraint = (LevelSetConstraint)lc;
          if (lc == 2 && P.curves.empty()) continue;
          opts.push_back(o);
          if (lc && !pres && P.curves.size() == 1 && P.points.empty()) {
            o.softLevelSetWeight = 10;
            opts.push_back(o);
          }
        }
      size_t j = 0;
      for (auto& o : opts) {
        if (!deep && (j++ + k) % 2) continue;
        double tc = (k + j) % 3 == 0 ? .5 : 1.;
        Vec want;
        ctx.transition();
        if (!solve(P, tc, o, want)) {
          ctx.outcome("not compared");
          continue;
        }
        std::string what = cat(o.preserveSourceNormals ? "preserving normals, " : "", o.levelSetConstraint == LevelSetConstraint::None ? "None" : o.levelSetConstraint == LevelSetConstraint::ZeroSet ? "ZeroSet" : "Multiple", o.softLevelSetWeight > 0 ? " soft" : "");
        std::string kind = P.curves.empty() ? "points" : !P.curves[0].isSigned ? "unsigned curve" : P.curves.size() > 1 ? "curves" : P.points.size() ? "curve+point" : "curve";
        VertexData<double> got;
        try {
          solver.setDiffusionTimeCoefficient(tc);
          got = P.curves.empty() ? solver.computeDistance(P.points, o) : P.points.empty() ? solver.computeDistance(P.curves, o) : solver.computeDistance(P.curves, P.points, o);
        } catch (std::exception& e) {
          bad(cat(kind, " (", what, ") fails"), cat(P.str(), ": ", std::string(e.what()).substr(0, 60)));
          continue;
        }
        double sc = 1 + want.cwiseAbs().maxCoeff();
        for (Vertex v : mesh.vertices())
          if (!(std::abs(got[v] - want(S->idx(v))) <= 2e-5 * sc)) {
            bad(cat(kind, " (", what, ")"), cat(P.str(), "t=", tc, " at ", v, " ", got[v], " should be ", want(S->idx(v))));
            break;
          }
        ctx.outcome(cat(kind, ", ", what));
      }
    }
  }
};

// unsigned curves which end on the boundary
static void boundaryEnds(Ctx& ctx, const geo::Shape& s) {
  if (!ctx.begin("ends-" + s.name)) return;
  suite::In in = suite::from(s);
  in.build();
  ctx.state(hashStr("ends-" + in.name));
  SignedHeatSolver solver(*in.g);
  for (Halfedge h : in.mesh->halfedges()) {
    if (!h.tailVertex().isBoundary() || h.tipVertex().isBoundary()) continue;
    for (auto c : {std::vector<SurfacePoint>{h.tailVertex(), h.tipVertex()}, std::vector<SurfacePoint>{h.tipVertex(), h.tailVertex()}}) {
      Curve cv;
      cv.nodes = c;
      cv.isSigned = false;
      ctx.transition();
      std::string why;
      try {
        auto d = solver.computeDistance(std::vector<Curve>{cv});
        for (Vertex v : in.mesh->vertices())
          if (!std::isfinite(d[v])) why = cat(d[v], " at ", v);
      } catch (std::exception& e) {
        why = e.what();
      }
      if (why.size()) {
        ctx.fail("unsigned curve to the boundary", cat("unsigned curve from ", sh(c[0]), " to ", sh(c[1]), ": ", why));
        return;
      }
    }
  }
}

// signs and magnitudes on a fine flat grid
static void flat(Ctx& ctx, int n) {
  if (!ctx.begin(cat("flat", n))) return;
  auto s = geo::planarGrid(n, n, 2);
  suite::In in = suite::from(s);
  in.build();
  ctx.state(hashStr(in.name));
  auto& mesh = *in.mesh;
  SignedHeatSolver solver(*in.g);
  std::map<std::pair<int, int>, Vertex> at;
  for (Vertex v : mesh.vertices()) at[{(int)std::round(s.p[v.getIndex()].x), (int)std::round(s.p[v.getIndex()].y)}] = v;
  for (int c = 2; c <= n - 2; c++)
    for (int dirn = 0; dirn < 4; dirn++) {
      Curve cv;
      for (int k = 0; k <= n; k++) {
        int a = dirn % 2 ? n - k : k;
        cv.nodes.push_back(dirn < 2 ? at[{a, c}] : at[{c, a}]);
      }
      for (auto lc : {LevelSetConstraint::None, LevelSetConstraint::ZeroSet, LevelSetConstraint::Multiple}) {
        SignedHeatOptions o;
        o.levelSetConstraint = lc;
        ctx.transition();
        auto d = solver.computeDistance(std::vector<Curve>{cv}, o);
        for (Vertex v : mesh.vertices()) {
          Vector3 p = s.p[v.getIndex()];
          double y = dirn < 2 ? p.y - c : c - p.x; // left of +x is +y, left of +y is -x
          if (dirn % 2) y = -y;
          if (!(std::abs(d[v] - y) <= .3 + .3 * std::abs(y))) {
            ctx.fail("flat line", cat("signed distance to a straight line: ", d[v], " true ", y));
            break;
          }
        }
      }
    }
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C33";
  o.technique = "explicit enumeration of inputs, source curves and options against a dense reference implementation";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "a signed or unsigned distance outside numerical tolerance of the published discrete algorithm, or a failure to compute it";
  o.assumptions = {"faces in which the diffused field vanishes, unsigned curves ending at boundary or non-flat vertices, and linearly dependent source-normal constraints are not compared"};
  o.caseCpuLimit = 200;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    auto shapes = suite::triShapes(th);
    for (auto& s : shapes) {
      if (!ctx.begin(s.name)) continue;
      ctx.state(hashStr(s.name));
      suite::In in = suite::from(s);
      in.build();
      Case c(ctx, s.name, *in.mesh, *in.g, *in.M, th);
      c.run();
    }
    for (auto& s : shapes) { // meshes with deleted elements
      if (!ctx.begin(s.name + "-holes")) continue;
      suite::In in = suite::from(s);
      in.build();
      if (!suite::punch(in)) continue;
      ctx.state(hashStr(in.name));
      Case c(ctx, in.name, *in.mesh, *in.g, *in.M, false);
      c.run();
    }
    flat(ctx, 8);
    for (auto& s : {geo::planarGrid(2, 2, 2), geo::planarGrid(3, 3, 1), geo::planarGrid(3, 2, 2), geo::cylinder(4, 2, 1)}) boundaryEnds(ctx, s);
    if (th) flat(ctx, 12);
  });
}
