// C25: quantities of point clouds (neighbors, normals, frames, transport, gradients, local triangulations, Laplacians),
// against brute force, for every point of every cloud and every neighborhood size.  With --heat (C36): distance, scalar
// extension, transport, logarithmic maps and signed distance on point clouds against dense implementations.
#include "mc.h"
#include "ops.h"
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "geometrycentral/pointcloud/local_triangulation.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_cloud_heat_solver.h"
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
#include "geometrycentral/pointcloud/sample_cloud.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include <functional>
using namespace geometrycentral;
using namespace geometrycentral::pointcloud;
using surface::EdgeData;
using namespace mc;
using namespace ops;
typedef std::vector<Vector3> Pts;
typedef std::array<Vector3, 3> Frame;

static const double PI_ = 3.14159265358979323846;
static double det(Vector3 a, Vector3 b, Vector3 c) { return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x); }
static double dp(Vector3 a, Vector3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static double len(Vector3 a) { return std::sqrt(dp(a, a)); }
static Vector3 cr(Vector3 a, Vector3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double cr2(Vector2 a, Vector2 b) { return a.x * b.y - a.y * b.x; }
static Vector3 rot(Vector3 v, Vector3 k, double t) { // around a unit axis
  return v * std::cos(t) + cr(k, v) * std::sin(t) + k * (dp(k, v) * (1 - std::cos(t)));
}

struct Cloud {
  std::string name;
  Pts p;
  bool planar = false;
};
static double irr(size_t i, size_t a, size_t b) { return ((i * a + 2) % b) / double(b - 1) - .5; }
static void jitter(Pts& p, double amt, bool flat) {
  for (size_t i = 0; i < p.size(); i++) {
    p[i].x += amt * irr(i, 5, 7) + amt * .2 * irr(i, 3, 13);
    p[i].y += amt * irr(i, 7, 11) + amt * .2 * irr(i, 9, 17);
    if (!flat) p[i].z += amt * irr(i, 3, 5);
  }
}
static void place(Pts& p, int k) { // a few rigid motions and scalings
  Vector3 ax = k % 3 == 0 ? Vector3{0, 0, 1} : k % 3 == 1 ? Vector3{.6, .8, 0} : Vector3{.48, -.6, .64};
  for (auto& x : p) {
    x = rot(x, ax, .7 * k);
    if (k == 2) x = x * 40. + Vector3{3, -8, 100};
    if (k == 3) x = x * .01 + Vector3{.02, 0, -.01};
  }
}
static std::vector<Cloud> clouds(bool T) {
  std::vector<Cloud> r;
  auto add = [&](std::string n, Pts p, bool planar) {
    for (int k = 0; k < (T ? 4 : 2); k++) {
      Cloud c{cat(n, "-m", T ? k : k * 2), p, planar};
      place(c.p, T ? k : k * 2);
      r.push_back(c);
    }
  };
  for (int w = 3; w <= 5; w++)
    for (int h = 2; h <= 5; h++) {
      Pts p, hex;
      for (int j = 0; j < h; j++)
        for (int i = 0; i < w; i++) {
          p.push_back({1. * i, 1. * j, 0});
          hex.push_back({i + .5 * j, j * .8660254, 0});
        }
      Pts q = p;
      jitter(q, .25, true);
      add(cat("plane", w, "x", h), q, true);
      q = hex;
      jitter(q, .1, true);
      add(cat("hex", w, "x", h), q, true);
      for (size_t i = 0; i < p.size(); i++) p[i].z = .3 * std::sin(1.1 * p[i].x + .4 * p[i].y) + .1 * p[i].y * p[i].y;
      jitter(p, .2, false);
      add(cat("field", w, "x", h), p, false);
      if (w == 4 && h == 4) {
        Pts e;
        for (int j = 0; j < h; j++)
          for (int i = 0; i < w; i++) e.push_back({1. * i, 1. * j, 0});
        add("lattice4x4", e, true);
      }
    }
  for (int w = 3; w <= 5; w++) { // straight rows with uneven distances
    Pts e;
    for (int j = 0; j < 3; j++)
      for (int i = 0; i < w; i++) e.push_back({i * (1 + .1 * j) + .6 * irr(i + j * w, 5, 7) + .1 * irr(i + j * w, 3, 13), j * 1.1, 0});
    add(cat("rows", w), e, true);
  }
  Pts s; // sphere, spiral pattern
  for (int i = 0; i < 24; i++) {
    double z = 1 - (2 * i + 1) / 24., a = 2.399963 * i;
    s.push_back({std::sqrt(1 - z * z) * std::cos(a), std::sqrt(1 - z * z) * std::sin(a), z});
  }
  add("sphere24", s, false);
  Pts c; // cylinder
  for (int j = 0; j < 4; j++)
    for (int i = 0; i < 7; i++) c.push_back({std::cos((i + .5 * j) * 2 * PI_ / 7), std::sin((i + .5 * j) * 2 * PI_ / 7), .7 * j + .05 * (i % 3)});
  add("cylinder", c, false);
  Pts t = c; // two sheets which are close to each other
  t.clear();
  for (int j = 0; j < 3; j++)
    for (int i = 0; i < 4; i++) {
      t.push_back({1. * i, 1. * j, 0});
      t.push_back({i + .3, j + .4, .35});
    }
  jitter(t, .15, false);
  add("sheets", t, false);
  return r;
}
// minimal rotation taking a to b, applied to v; false if they are (almost) opposite
static bool carry(Vector3 a, Vector3 b, Vector3 v, Vector3& out) {
  Vector3 k = cr(a, b);
  double c = dp(a, b);
  if (c < -.99999) return false;
  out = v * c + cr(k, v) + k * (dp(k, v) / (1 + c));
  return true;
}

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  const Cloud& in;
  size_t n;
  double scale;
  Case(Ctx& c, std::string i, const Cloud& cl) : ctx(c), id(i), in(cl), n(cl.p.size()) {
    scale = 0;
    for (auto& x : in.p)
      for (auto& y : in.p) scale = std::max(scale, len(x - y));
  }
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  PointData<Vector3> positions(PointCloud& cloud) {
    PointData<Vector3> x(cloud);
    for (size_t i = 0; i < n; i++) x[cloud.point(i)] = in.p[i];
    return x;
  }
  // frames: 0 = computed, 1 = given normals (every third reversed, tilted), 2 = given frames
  std::unique_ptr<PointPositionGeometry> make(PointCloud& cloud, int how, std::vector<Frame>* given = nullptr, unsigned k = 6) {
    PointData<Vector3> x = positions(cloud);
    std::unique_ptr<PointPositionGeometry> base(new PointPositionGeometry(cloud, x));
    base->kNeighborSize = k;
    if (how == 0) return base;
    base->requireNormals();
    PointData<Vector3> N(cloud);
    PointData<Frame> F(cloud);
    for (size_t i = 0; i < n; i++) {
      Vector3 m = base->normals[i];
      if (m.z + .3 * m.x < 0) m = -m;
      Vector3 tx = cr(m, std::abs(m.x) < .7 ? Vector3{1, 0, 0} : Vector3{0, 1, 0});
      tx = tx / len(tx);
      m = rot(m, tx, .05 * irr(i, 3, 7)); // (not exactly the computed ones)
      if (how == 1 && i % 3 == 1) m = -m;
      N[i] = m;
      tx = rot(tx, m, .9 * i);
      F[i] = Frame{tx, cr(m, tx), m};
      if (given) given->push_back(F[i]);
    }
    std::unique_ptr<PointPositionGeometry> g;
    if (how == 1) g.reset(new PointPositionNormalGeometry(cloud, x, N));
    else g.reset(new PointPositionFrameGeometry(cloud, x, F));
    g->kNeighborSize = k;
    return g;
  }
  void frames(PointPositionGeometry& g, std::vector<Frame>& F) {
    g.requireNormals();
    g.requireTangentBasis();
    F.resize(n);
    for (size_t i = 0; i < n; i++) F[i] = Frame{g.tangentBasis[i][0], g.tangentBasis[i][1], g.normals[i]};
  }
  // block of the connection Laplacian: from the tangent plane of i to that of j; false if undefined
  bool block(const std::vector<Frame>& F, size_t i, size_t j, Eigen::Matrix2d& R) {
    Vector3 m = F[j][2];
    if (std::abs(dp(F[i][2], m)) < 1e-6) return false;
    if (dp(F[i][2], m) < 0) m = -m;
    for (int c = 0; c < 2; c++) {
      Vector3 v;
      if (!carry(F[i][2], m, F[i][c], v)) return false;
      R(0, c) = dp(v, F[j][0]);
      R(1, c) = dp(v, F[j][1]);
    }
    return true;
  }
  Mat connection(const std::vector<Frame>& F, const Mat& L, bool& ok) {
    Mat K = Mat::Zero(2 * n, 2 * n);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        if (i == j || L(i, j) == 0) continue;
        Eigen::Matrix2d R;
        if (!block(F, j, i, R)) {
          if (std::abs(L(i, j)) > 1e-9) ok = false;
          continue;
        }
        K.block<2, 2>(2 * i, 2 * j) += L(i, j) * R;
        K.block<2, 2>(2 * i, 2 * i) -= L(i, j) * Eigen::Matrix2d::Identity();
      }
    return K;
  }
  // ------------------------------------------------------------------------------------------------- quantities
  void neighborhoods(PointPositionGeometry& g, unsigned k) {
    g.requireNeighbors();
    for (size_t i = 0; i < n; i++) {
      auto& N = g.neighbors->neighbors[i];
      std::vector<double> all, got;
      std::set<size_t> ids;
      for (size_t j = 0; j < n; j++)
        if (j != i) all.push_back(len(in.p[j] - in.p[i]));
      std::sort(all.begin(), all.end());
      for (Point q : N) {
        ids.insert(q.getIndex());
        got.push_back(len(in.p[q.getIndex()] - in.p[i]));
      }
      std::sort(got.begin(), got.end());
      if (N.size() != k || ids.size() != k || ids.count(i)) bad("neighbors", cat("point ", i, " has ", N.size(), " neighbors, ", ids.size(), " different"));
      else
        for (size_t a = 0; a < k; a++)
          if (std::abs(all[a] - got[a]) > 1e-9 * scale) bad("nearest neighbors", cat("of point ", i, ": the ", a, "th is at ", got[a], " should be ", all[a]));
      ctx.transition();
    }
  }
  void quantities(int how, unsigned k) {
    PointCloud cloud(n);
    std::vector<Frame> given;
    auto gp = make(cloud, how, &given, k);
    PointPositionGeometry& g = *gp;
    std::string tag = how == 0 ? "" : how == 1 ? " (given normals)" : " (given frames)";
    g.requirePointIndices();
    for (size_t i = 0; i < n; i++)
      if (g.pointIndices[i] != i) bad("pointIndices", cat(i));
    neighborhoods(g, k);
    std::vector<Frame> F;
    frames(g, F);
    for (size_t i = 0; i < n; i++) {
      Vector3 m = F[i][2];
      if (how == 0) {
        Eigen::Matrix3d A = Eigen::Matrix3d::Zero();
        for (Point q : g.neighbors->neighbors[i]) {
          Vector3 d = in.p[q.getIndex()] - in.p[i];
          Eigen::Vector3d e(d.x, d.y, d.z);
          A += e * e.transpose();
        }
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(A);
        Eigen::Vector3d e(m.x, m.y, m.z);
        if (std::abs(len(m) - 1) > 1e-9) bad("normal", cat("of point ", i, " has length ", len(m)));
        else if (!(e.dot(A * e) <= es.eigenvalues()(0) + 1e-9 * scale * scale)) bad("normal", cat("of point ", i, " is ", m, ": spread ", e.dot(A * e), " in this direction, at least ", es.eigenvalues()(0)));
      } else {
        if (len(m - given[i][2]) > 0) bad("given normal", cat("of point ", i, " is ", m, " not ", given[i][2]));
        if (how == 2 && (len(F[i][0] - given[i][0]) > 0 || len(F[i][1] - given[i][1]) > 0)) bad("given frame", cat("of point ", i));
      }
      for (int a = 0; a < 3; a++)
        for (int b = 0; b <= a; b++)
          if (std::abs(dp(F[i][a], F[i][b]) - (a == b)) > 1e-9) bad("tangent basis", cat("of point ", i, " is not orthonormal", tag));
      if (std::abs(det(F[i][0], F[i][1], F[i][2]) - 1) > 1e-9) bad("tangent basis", cat("of point ", i, " is not right-handed", tag));
    }
    g.requireTangentCoordinates();
    g.requireTangentTransport();
    g.requireGradient();
    Eigen::MatrixXcd G(g.gradient);
    for (size_t i = 0; i < n; i++) {
      auto& N = g.neighbors->neighbors[i];
      Mat A(N.size(), 2), B = Mat::Zero(N.size(), n);
      for (size_t a = 0; a < N.size(); a++) {
        ctx.transition();
        size_t j = N[a].getIndex();
        Vector3 d = in.p[j] - in.p[i];
        Vector2 c = g.tangentCoordinates[i][a];
        A(a, 0) = dp(d, F[i][0]);
        A(a, 1) = dp(d, F[i][1]);
        B(a, i) -= 1;
        B(a, j) += 1;
        if (std::abs(c.x - A(a, 0)) + std::abs(c.y - A(a, 1)) > 1e-9 * scale) bad("tangent coordinates" + tag, cat("of neighbor ", j, " of ", i, " are ", c));
        Vector3 v;
        if (carry(F[i][2], F[j][2], F[i][0], v)) {
          Vector2 r = g.tangentTransport[i][a];
          if (std::abs(r.x - dp(v, F[j][0])) + std::abs(r.y - dp(v, F[j][1])) > 1e-5) bad("tangent transport" + tag, cat("from ", i, " to ", j, " is ", r, " should be ", dp(v, F[j][0]), " ", dp(v, F[j][1])));
        }
      }
      // the least squares gradient of every function on the neighborhood
      Mat X(2, n);
      for (size_t j = 0; j < n; j++) {
        X(0, j) = G(i, j).real();
        X(1, j) = G(i, j).imag();
      }
      Mat res = A.transpose() * (A * X - B);
      Eigen::JacobiSVD<Mat> svd(A);
      bool fine = svd.singularValues().size() == 2 && svd.singularValues()(1) > 1e-6 * svd.singularValues()(0); // (neighbors in line: no gradient)
      if (fine && !(res.cwiseAbs().maxCoeff() < 1e-8 * scale)) bad("gradient" + tag, cat("at ", i, " is not the best fit, residual ", res.cwiseAbs().maxCoeff()));
      for (size_t j = 0; j < n; j++) {
        bool nb = j == i;
        for (Point q : N) nb |= q.getIndex() == j;
        if (!nb && std::abs(G(i, j)) > 0) bad("gradient" + tag, cat("at ", i, " depends on ", j));
      }
    }
    if (k >= 3) {
      localTriangles(g, tag);
      laplacians(g, F, tag);
    }
    ctx.outcome(cat("quantities", tag));
  }
  void localTriangles(PointPositionGeometry& g, const std::string& tag) {
    auto tri = buildLocalTriangulations(g.cloud, g, true);
    auto inds = handleToInds(g.cloud, tri);
    auto flat = handleToFlatInds(g.cloud, tri);
    size_t at = 0;
    for (size_t i = 0; i < n; i++) {
      std::set<std::pair<size_t, size_t>> got;
      for (size_t t = 0; t < tri[i].size(); t++) {
        for (int c = 0; c < 3; c++)
          if (inds[i][t][c] != tri[i][t][c].getIndex() || at >= flat.size() || flat[at][c] != inds[i][t][c]) bad("local triangulation indices", cat("of ", i));
        at++;
        if (inds[i][t][0] != i) bad("local triangulation", cat("triangle of ", i, " starts at ", inds[i][t][0]));
        got.insert({inds[i][t][1], inds[i][t][2]});
      }
      auto& N = g.neighbors->neighbors[i];
      auto& q = g.tangentCoordinates[i];
      size_t k = N.size();
      double R = 0;
      for (auto& x : q) R = std::max(R, std::hypot(x.x, x.y));
      bool ok = true;
      std::set<std::pair<size_t, size_t>> want;
      std::vector<bool> hidden(k, false); // behind another neighbor
      auto flatPair = [&](size_t a, size_t b) { return std::abs(cr2(q[a], q[b])) < 1e-12 * std::hypot(q[a].x, q[a].y) * std::hypot(q[b].x, q[b].y); };
      for (size_t a = 0; a < k; a++)
        for (size_t b = 0; b < k; b++)
          if (a != b && flatPair(a, b) && q[a].x * q[b].x + q[a].y * q[b].y > 0) {
            if (q[b].norm() < .9 * q[a].norm()) hidden[a] = true;
            else if (q[b].norm() < 1.1 * q[a].norm()) ok = false;
          }
      for (size_t a = 0; a < k; a++)
        for (size_t b = 0; b < k; b++)
          if (a != b && flatPair(a, b)) got.erase({N[a].getIndex(), N[b].getIndex()}); // triangles without area, either way
      for (size_t a = 0; a < k && ok; a++) {
        if (hidden[a]) continue;
        if (std::hypot(q[a].x, q[a].y) < .02 * R) ok = false; // practically on top of the point
        for (size_t b = 0; b < k && ok; b++) {
          if (a == b || hidden[b] || flatPair(a, b)) continue;
          double ar = cr2(q[a], q[b]), la = std::hypot(q[a].x, q[a].y), lb = std::hypot(q[b].x, q[b].y);
          if (std::abs(ar) < .01 * la * lb) ok = false; // practically in line
          if (ar <= 0) continue;
          // circle through 0, a, b
          double D = 2 * ar, ux = (q[b].y * la * la - q[a].y * lb * lb) / D, uy = (q[a].x * lb * lb - q[b].x * la * la) / D, r2 = ux * ux + uy * uy;
          bool empty = true;
          for (size_t c = 0; c < k; c++) {
            if (c == a || c == b || hidden[c]) continue;
            double d = (q[c].x - ux) * (q[c].x - ux) + (q[c].y - uy) * (q[c].y - uy) - r2;
            if (std::abs(d) < 1e-6 * (r2 + R * R)) ok = false;
            if (d < 0) empty = false;
          }
          if (empty) want.insert({N[a].getIndex(), N[b].getIndex()});
        }
      }
      ctx.outcome(ok ? "Delaunay neighborhood" : "degenerate neighborhood");
      if (ok && got != want) {
        std::string s;
        for (auto& x : got) s += cat("(", x.first, " ", x.second, ")");
        s += " should be ";
        for (auto& x : want) s += cat("(", x.first, " ", x.second, ")");
        bad("local triangulation" + tag, cat("of ", i, ": ", s));
      }
      ctx.transition();
    }
    if (at != flat.size()) bad("local triangulation indices", "flat list");
  }
  void laplacians(PointPositionGeometry& g, std::vector<Frame>& F, const std::string& tag) {
    g.requireTuftedTriangulation();
    auto tri = buildLocalTriangulations(g.cloud, g, true);
    g.tuftedGeom->requireEdgeLengths();
    if (g.tuftedMesh->nVertices() != n) {
      bad("tufted triangulation", cat(g.tuftedMesh->nVertices(), " vertices for ", n, " points"));
      return;
    }
    Surf S(*g.tuftedMesh, g.tuftedGeom->edgeLengths);
    double area = 0, have = 0, mean = 0, cnt = 0;
    size_t nt = 0;
    for (size_t i = 0; i < n; i++)
      for (auto& t : tri[i]) {
        Vector3 a = in.p[t[0].getIndex()], b = in.p[t[1].getIndex()], c = in.p[t[2].getIndex()];
        area += 2 * .5 * len(cr(b - a, c - a));
        nt += 2;
        for (auto x : {len(a - b), len(b - c), len(c - a)}) mean += x, cnt++;
      }
    mean /= cnt;
    for (auto& t : S.T) have += t.area;
    if (S.T.size() != nt) bad("tufted triangulation", cat(S.T.size(), " triangles should be ", nt));
    // (lengths were changed a little so that no triangle is degenerate)
    if (!(std::abs(area - have) <= 1e-3 * nt * mean * mean)) bad("tufted triangulation", cat("has area ", have, " should be ", area));
    if (g.tuftedMesh->hasBoundary()) bad("tufted triangulation", "has a boundary");
    // Delaunay
    auto w = S.cotans();
    if (S.skinny > 1e-4)
      for (size_t e = 0; e < w.size(); e++)
        if (w[e] < -1e-4) bad("tufted triangulation", cat("an edge has weight ", w[e]));
    g.requireLaplacian();
    g.requireConnectionLaplacian();
    Mat L(g.laplacian), K(g.connectionLaplacian);
    double sc = L.cwiseAbs().maxCoeff();
    if (L.rows() != (int)n || L.cols() != (int)n || K.rows() != 2 * (int)n || K.cols() != 2 * (int)n) {
      bad("Laplacian size" + tag, "");
      return;
    }
    if (!((L - L.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * sc)) bad("Laplacian" + tag, "is not symmetric");
    if (!((L * Vec::Ones(n)).cwiseAbs().maxCoeff() <= 1e-8 * sc)) bad("Laplacian" + tag, "of constants is not zero");
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        if (i != j && L(i, j) > 1e-4 && S.skinny > 1e-4) bad("Laplacian" + tag, cat("has positive entry ", L(i, j), " at ", i, " ", j));
    if (!((L - S.lap()).cwiseAbs().maxCoeff() <= 1e-6 * sc)) bad("Laplacian" + tag, "is not that of the tufted triangulation");
    bool ok = true;
    Mat want = connection(F, L, ok);
    if (ok && !((K - want).cwiseAbs().maxCoeff() <= 1e-5 * sc)) {
      int a, b;
      double d = (K - want).cwiseAbs().maxCoeff(&a, &b);
      bad("connection Laplacian" + tag, cat("at ", a, " ", b, " off by ", d));
    }
    if (!((K - K.transpose()).cwiseAbs().maxCoeff() <= 1e-5 * sc)) bad("connection Laplacian" + tag, "is not symmetric");
    ctx.outcome(ok ? "connection" : "perpendicular normals");
    // where every triangle of a plane is acute it is the cotangent Laplacian, up to the number of copies of the triangles
    if (in.planar) {
      Mat C = Mat::Zero(n, n);
      std::vector<bool> good(n, true);
      std::map<std::array<size_t, 3>, int> times;
      for (size_t i = 0; i < n; i++)
        for (auto& t : tri[i]) {
          std::array<size_t, 3> a{t[0].getIndex(), t[1].getIndex(), t[2].getIndex()};
          std::sort(a.begin(), a.end());
          times[a]++;
        }
      for (auto& t : times) {
        bool fine = t.second == 3;
        for (int c = 0; c < 3; c++) {
          Vector3 u = in.p[t.first[(c + 1) % 3]] - in.p[t.first[c]], v = in.p[t.first[(c + 2) % 3]] - in.p[t.first[c]];
          double cot = dp(u, v) / len(cr(u, v));
          if (cot < .02) fine = false;
          size_t a = t.first[(c + 1) % 3], b = t.first[(c + 2) % 3];
          C(a, b) -= .5 * cot;
          C(b, a) -= .5 * cot;
          C(a, a) += .5 * cot;
          C(b, b) += .5 * cot;
        }
        if (!fine)
          for (size_t v : t.first) good[v] = false;
      }
      // rows which are not next to a point whose triangles are in doubt
      double f = 0;
      for (size_t i = 0; i < n; i++) {
        bool g2 = good[i] && C(i, i) > 0;
        for (size_t j = 0; j < n; j++)
          if (C(i, j) != 0 && !good[j]) g2 = false;
        // closed fan
        double ang = 0;
        for (auto& t : tri[i]) {
          Vector3 u = in.p[t[1].getIndex()] - in.p[i], v = in.p[t[2].getIndex()] - in.p[i];
          ang += std::atan2(len(cr(u, v)), dp(u, v));
        }
        if (std::abs(ang - 2 * PI_) > 1e-6) g2 = false;
        if (!g2) continue;
        if (f == 0) f = L(i, i) / C(i, i);
        ctx.outcome("acute planar row");
        if (!((L.row(i) - f * C.row(i)).cwiseAbs().maxCoeff() <= 1e-3 * f * C(i, i))) bad("planar Laplacian" + tag, cat("row ", i, " is not proportional to the cotangent weights"));
      }
    }
  }
  // histories of require / unrequire / purge / moves / refresh: everything equals that of a fresh geometry
  static const int NQ = 10;
  static void req(PointPositionGeometry& g, int q, bool on) {
    switch (q) {
    case 0: on ? g.requirePointIndices() : g.unrequirePointIndices(); break;
    case 1: on ? g.requireNeighbors() : g.unrequireNeighbors(); break;
    case 2: on ? g.requireNormals() : g.unrequireNormals(); break;
    case 3: on ? g.requireTangentBasis() : g.unrequireTangentBasis(); break;
    case 4: on ? g.requireTangentCoordinates() : g.unrequireTangentCoordinates(); break;
    case 5: on ? g.requireTangentTransport() : g.unrequireTangentTransport(); break;
    case 6: on ? g.requireTuftedTriangulation() : g.unrequireTuftedTriangulation(); break;
    case 7: on ? g.requireLaplacian() : g.unrequireLaplacian(); break;
    case 8: on ? g.requireConnectionLaplacian() : g.unrequireConnectionLaplacian(); break;
    case 9: on ? g.requireGradient() : g.unrequireGradient(); break;
    }
  }
  std::vector<double> value(PointPositionGeometry& g, int q) {
    std::vector<double> r;
    auto put = [&](const Eigen::MatrixXd& M) {
      for (int i = 0; i < M.rows(); i++)
        for (int j = 0; j < M.cols(); j++) r.push_back(M(i, j));
    };
    for (size_t i = 0; i < n; i++) switch (q) {
      case 0: r.push_back(g.pointIndices[i]); break;
      case 1:
        for (Point p : g.neighbors->neighbors[i]) r.push_back(p.getIndex());
        break;
      case 2: for (int c = 0; c < 3; c++) r.push_back(g.normals[i][c]); break;
      case 3: for (int c = 0; c < 6; c++) r.push_back(g.tangentBasis[i][c / 3][c % 3]); break;
      case 4:
        for (auto v : g.tangentCoordinates[i]) r.push_back(v.x), r.push_back(v.y);
        break;
      case 5:
        for (auto v : g.tangentTransport[i]) r.push_back(v.x), r.push_back(v.y);
        break;
      }
    if (q == 6) {
      for (surface::Face f : g.tuftedMesh->faces())
        for (surface::Vertex v : f.adjacentVertices()) r.push_back(v.getIndex());
      g.tuftedGeom->requireEdgeLengths();
      for (surface::Edge e : g.tuftedMesh->edges()) r.push_back(g.tuftedGeom->edgeLengths[e]);
      g.tuftedGeom->unrequireEdgeLengths();
    }
    if (q == 7) put(Eigen::MatrixXd(g.laplacian));
    if (q == 8) put(Eigen::MatrixXd(g.connectionLaplacian));
    if (q == 9) {
      Eigen::MatrixXcd G(g.gradient);
      put(G.real());
      put(G.imag());
    }
    return r;
  }
  void histories(int how, unsigned k, bool deep) {
    PointCloud cloud(n);
    std::vector<std::vector<double>> ref[2];
    PointData<Vector3> x0 = positions(cloud), x1(cloud);
    for (size_t i = 0; i < n; i++) x1[i] = x0[i] + scale * .02 * Vector3{irr(i, 3, 7), irr(i, 5, 11), irr(i, 7, 5)};
    // (given normals and frames stay the same)
    auto fresh = [&](int s) {
      auto g = make(cloud, how, nullptr, k);
      if (s) g->positions = x1;
      return g;
    };
    for (int s = 0; s < 2; s++)
      for (int q = 0; q < NQ; q++) {
        auto g = fresh(s);
        req(*g, q, true);
        ref[s].push_back(value(*g, q));
        req(*g, q, false);
      }
    auto same = [&](PointPositionGeometry& g, int s, int q, const std::string& what) {
      ctx.transition();
      auto v = value(g, q);
      if (v.size() != ref[s][q].size()) {
        bad("history", cat("quantity ", q, " ", what, " has another size"));
        return;
      }
      for (size_t i = 0; i < v.size(); i++)
        if (!(std::abs(v[i] - ref[s][q][i]) <= 1e-9 * (1 + std::abs(v[i])))) {
          bad("history", cat("quantity ", q, " ", what, ": ", v[i], " should be ", ref[s][q][i]));
          return;
        }
    };
    for (int a = 0; a < NQ; a++)
      for (int b = 0; b < NQ; b++) {
        auto g = fresh(0);
        std::string w = cat("require ", a, ", ", b);
        req(*g, a, true);
        req(*g, b, true);
        same(*g, 0, a, w);
        same(*g, 0, b, w);
        // move and refresh
        g->positions = x1;
        g->refreshQuantities();
        same(*g, 1, a, w + ", move, refresh");
        same(*g, 1, b, w + ", move, refresh");
        // drop one, move back
        req(*g, a, false);
        g->positions = x0;
        g->refreshQuantities();
        if (a != b) same(*g, 0, b, w + ", move, refresh, drop the first, move, refresh");
        req(*g, a, true);
        same(*g, 0, a, w + ", ..., require the first again");
        req(*g, b, false);
        g->purgeQuantities();
        same(*g, 0, a, w + ", ..., purge without the second");
        if (!deep) continue;
        req(*g, b, true);
        same(*g, 0, b, w + ", ..., purge, require the second again");
        g->positions = x1;
        req(*g, a, false);
        req(*g, b, false);
        g->purgeQuantities();
        g->refreshQuantities();
        req(*g, b, true);
        same(*g, 1, b, w + ", ..., everything dropped and required after a move");
      }
    ctx.outcome("histories");
  }
  // ------------------------------------------------------------------------------------------------- heat methods
  static bool differ(const Vec& a, const PointData<double>& b, double tol, std::string& why) {
    double sc = a.cwiseAbs().maxCoeff() + 1e-12;
    for (int i = 0; i < a.size(); i++)
      if (!(std::abs(a(i) - b[i]) <= tol * sc)) {
        why = cat(" at ", i, " is ", b[i], " should be ", a(i));
        return true;
      }
    return false;
  }
  void heat(int how, unsigned k, double tCoef, bool deep) {
    PointCloud cloud(n);
    auto gp = make(cloud, how, nullptr, k);
    PointPositionGeometry& g = *gp;
    std::string tag = cat(how == 0 ? "" : how == 1 ? " (given normals)" : " (given frames)", " t=", tCoef);
    std::vector<Frame> F;
    frames(g, F);
    g.requireTuftedTriangulation();
    g.requireNeighbors();
    g.requireTangentCoordinates();
    g.tuftedGeom->requireEdgeLengths();
    Surf S(*g.tuftedMesh, g.tuftedGeom->edgeLengths);
    if (S.nV != n || S.skinny < 1e-3 || !S.connected()) {
      ctx.outcome("badly shaped or disconnected: not compared");
      return;
    }
    Mat L = S.lap(), M = S.mass();
    double t = tCoef * S.mean * S.mean, ms = M.trace() / n;
    bool ok = true;
    Mat K = connection(F, L, ok);
    if (!ok) return;
    Mat M2 = Mat::Zero(2 * n, 2 * n);
    for (size_t i = 0; i < 2 * n; i++) M2(i, i) = M(i / 2, i / 2);
    Eigen::PartialPivLU<Mat> H(M + t * L), V(M2 + t * K), P(L + 1e-6 * Mat::Identity(n, n));
    PointCloudHeatSolver solver(cloud, g, tCoef);
    auto unitHeat = [&](const Vec& rhs) { return (Vec)H.solve(rhs); };
    // distance
    auto distance = [&](const std::vector<size_t>& s, Vec& out) {
      Vec rhs = Vec::Zero(n);
      for (size_t i : s) rhs(i) += 1;
      Vec u = unitHeat(rhs);
      std::vector<C> X;
      if (!S.unit(u, X)) return false;
      if (u.minCoeff() < 1e-9 * u.maxCoeff()) return false;
      out = P.solve(S.div(X));
      double sh = 0;
      for (size_t i : s) sh += out(i);
      out = out.array() - sh / s.size();
      return true;
    };
    std::vector<std::vector<size_t>> src;
    for (size_t i = 0; i < n; i++) src.push_back({i});
    for (size_t i = 0; i < n; i++)
      for (size_t j = i + 1; j < n; j++)
        if (deep || (i * 7 + j * 3) % 5 == 0) src.push_back({i, j});
    src.push_back({0, n / 2, n - 1});
    auto S_ = [](const std::vector<size_t>& v) {
      std::string r;
      for (size_t x : v) r += cat(x, " ");
      return r;
    };
    std::string why;
    for (auto& s : src) {
      ctx.transition();
      std::vector<Point> pts;
      for (size_t i : s) pts.push_back(cloud.point(i));
      PointData<double> d = solver.computeDistance(pts);
      Vec want;
      if (!distance(s, want)) {
        ctx.outcome("no clear gradient");
        continue;
      }
      if (differ(want, d, 1e-4, why)) bad("distance" + tag, cat("from ", S_(s), why));
      ctx.outcome("distance");
      if (s.size() == 1) {
        PointData<double> d1 = solver.computeDistance(cloud.point(s[0]));
        for (size_t i = 0; i < n; i++)
          if (d1[i] != d[i]) bad("distance from one point", S_(s));
        // logarithmic map: that distance, in the direction in which the flow of tangent coordinates arrives
        PointData<Vector2> lm = solver.computeLogMap(cloud.point(s[0]));
        Vec rx = Vec::Zero(n), ry = Vec::Zero(n);
        auto& N = g.neighbors->neighbors[s[0]];
        for (Point q : N) {
          Vector3 e = in.p[q.getIndex()] - in.p[s[0]];
          rx(q.getIndex()) = dp(e, F[s[0]][0]);
          ry(q.getIndex()) = dp(e, F[s[0]][1]);
        }
        Vec X = unitHeat(rx), Y = unitHeat(ry);
        double mx = std::sqrt((X.array().square() + Y.array().square()).maxCoeff()), far = want.cwiseAbs().maxCoeff();
        for (size_t i = 0; i < n; i++) {
          double m = std::hypot(X(i), Y(i));
          if (i == s[0]) {
            if (!(lm[i].norm() <= 1e-4 * far)) bad("logarithm" + tag, cat("of the source ", i, " is ", lm[i]));
            continue;
          }
          if (m < 1e-6 * mx) continue;
          if (std::abs(lm[i].x - X(i) / m * want(i)) + std::abs(lm[i].y - Y(i) / m * want(i)) > 1e-4 * far) bad("logarithm" + tag, cat("from ", s[0], " at ", i, " is ", lm[i], " should be ", X(i) / m * want(i), " ", Y(i) / m * want(i)));
        }
      }
    }
    // scalars
    for (auto& s : src)
      for (int kind = 0; kind < 3; kind++) {
        ctx.transition();
        std::vector<std::tuple<Point, double>> q;
        Vec a = Vec::Zero(n), b = Vec::Zero(n);
        for (size_t j = 0; j < s.size(); j++) {
          double v = kind == 0 ? 2.5 : kind == 1 ? 1. + j : -1. + 2. * j;
          q.push_back(std::make_tuple(cloud.point(s[j]), v));
          a(s[j]) = v;
          b(s[j]) = 1;
        }
        Vec x = unitHeat(a), y = unitHeat(b);
        if (y.minCoeff() < 1e-7 * y.maxCoeff()) continue;
        Vec want = x.array() / y.array();
        PointData<double> r = solver.extendScalars(q);
        if (differ(want, r, 1e-5, why)) bad("extendScalars" + tag, cat("from ", S_(s), " kind ", kind, why));
        ctx.outcome("scalars");
      }
    // vectors
    for (auto& s : src)
      for (int kind = 0; kind < (s.size() > 2 ? 4 : 2); kind++) {
        ctx.transition();
        std::vector<std::tuple<Point, Vector2>> q;
        Vec a = Vec::Zero(n), b = Vec::Zero(n), v = Vec::Zero(2 * n);
        for (size_t j = 0; j < s.size(); j++) {
          double ang = .4 + 1.3 * j + s[j], m = kind == 1 ? 2. : kind == 0 ? 1. + .7 * j : kind == 2 ? (j % 2 ? 5. : 1.) : (j == 2 ? 5. : 1.);
          Vector2 w{m * std::cos(ang), m * std::sin(ang)};
          q.push_back(std::make_tuple(cloud.point(s[j]), w));
          v(2 * s[j]) += w.x;
          v(2 * s[j] + 1) += w.y;
          a(s[j]) = m;
          b(s[j]) = 1;
        }
        Vec x = unitHeat(a), y = unitHeat(b), z = V.solve(v);
        if (y.minCoeff() < 1e-7 * y.maxCoeff()) continue;
        PointData<Vector2> r = s.size() == 1 && kind ? solver.transportTangentVector(std::get<0>(q[0]), std::get<1>(q[0])) : solver.transportTangentVectors(q);
        double zm = z.cwiseAbs().maxCoeff();
        for (size_t i = 0; i < n; i++) {
          double m = std::hypot(z(2 * i), z(2 * i + 1)), w = x(i) / y(i);
          if (m < 1e-5 * zm) {
            ctx.outcome("no clear direction");
            continue;
          }
          if (!(std::abs(r[i].x - z(2 * i) / m * w) + std::abs(r[i].y - z(2 * i + 1) / m * w) <= 1e-4 * w)) {
            bad("transport" + tag, cat("from ", S_(s), " at ", i, " is ", r[i], " should be ", z(2 * i) / m * w, " ", z(2 * i + 1) / m * w));
            break;
          }
        }
        ctx.outcome("vectors");
      }
    (void)ms;
  }
  // signed distance: every path of two to four points between neighbors, loops, and pairs of paths, all options
  void signedDistance(int how, unsigned k, double tCoef, bool deep) {
    PointCloud cloud(n);
    auto gp = make(cloud, how, nullptr, k);
    PointPositionGeometry& g = *gp;
    std::string tag = cat(how == 0 ? "" : how == 1 ? " (given normals)" : " (given frames)");
    std::vector<Frame> F;
    frames(g, F);
    g.requireTuftedTriangulation();
    g.requireNeighbors();
    g.tuftedGeom->requireEdgeLengths();
    Surf S(*g.tuftedMesh, g.tuftedGeom->edgeLengths);
    if (S.nV != n || S.skinny < 1e-3 || !S.connected()) return;
    Mat L = S.lap(), M = S.mass();
    double t = tCoef * S.mean * S.mean;
    bool ok = true;
    Mat K = connection(F, L, ok);
    if (!ok) return;
    Mat M2 = Mat::Zero(2 * n, 2 * n);
    for (size_t i = 0; i < 2 * n; i++) M2(i, i) = M(i / 2, i / 2);
    Mat A = M2 + t * K;
    Eigen::PartialPivLU<Mat> V(A), P(L + 1e-6 * Mat::Identity(n, n));
    PointData<Vector3> normals(cloud);
    for (size_t i = 0; i < n; i++) {
      Vector3 m = F[i][2];
      if (m.z + .3 * m.x < 0) m = -m;
      normals[i] = m * (1 + .5 * (i % 3)); // (need not be of unit length)
    }
    std::vector<std::vector<std::vector<size_t>>> sets;
    auto step = [&](size_t i, size_t a) { return g.neighbors->neighbors[i][a % k].getIndex(); };
    for (size_t i = 0; i < n; i++)
      for (size_t a = 0; a < (deep ? 4u : 2u); a++) {
        size_t j = step(i, a);
        sets.push_back({{i, j}});
        for (size_t b = 0; b < (deep ? 4u : 2u); b++) {
          size_t l = step(j, b);
          if (l == i) continue;
          sets.push_back({{i, j, l}});
          sets.push_back({{i, j, l, i}});
          size_t m = step(l, a + b);
          if (m != i && m != j) sets.push_back({{i, j, l, m}});
          size_t o = (i + n / 2) % n, o2 = step(o, 0);
          if (o != i && o != j && o != l && o2 != i && o2 != j && o2 != l) sets.push_back({{i, j, l}, {o, o2}});
        }
      }
    PointCloudHeatSolver solver(cloud, g, tCoef);
    for (auto& cs : sets)
      for (int opt = 0; opt < 10; opt++) {
        if (!deep && opt % 2 != (cs[0][0] + cs[0].size()) % 2) continue;
        SignedHeatOptions o;
        o.preserveSourceNormals = opt >= 5;
        o.levelSetConstraint = opt % 5 == 0 ? LevelSetConstraint::None : opt % 5 < 3 ? LevelSetConstraint::ZeroSet : LevelSetConstraint::Multiple;
        o.softLevelSetWeight = (opt % 5 == 2 || opt % 5 == 4) ? 10. : -1.;
        ctx.transition();
        // reference
        Vec X0 = Vec::Zero(2 * n);
        std::map<size_t, std::array<double, 2>> tang;
        for (auto& c : cs)
          for (size_t s = 0; s + 1 < c.size(); s++)
            for (int e = 0; e < 2; e++) {
              size_t v = c[s + e];
              Vector3 seg = .5 * (in.p[c[s + 1]] - in.p[c[s]]), m = normals[v] / len(normals[v]);
              Vector3 T = F[v][0] * dp(F[v][0], seg) + F[v][1] * dp(F[v][1], seg), Nn = cr(m, T);
              for (int j = 0; j < 2; j++) {
                X0(2 * v + j) += dp(F[v][j], Nn);
                tang[v][j] += dp(F[v][j], T);
              }
            }
        Vec X;
        if (!o.preserveSourceNormals) X = V.solve(X0);
        else {
          size_t m = tang.size(), q = 0;
          Mat B = Mat::Zero(2 * n + m, 2 * n + m);
          B.topLeftCorner(2 * n, 2 * n) = A;
          bool fine = true;
          for (auto& e : tang) {
            if (std::hypot(e.second[0], e.second[1]) < 1e-3 * S.mean) fine = false; // turns back: no tangent
            for (int j = 0; j < 2; j++) B(2 * n + q, 2 * e.first + j) = B(2 * e.first + j, 2 * n + q) = e.second[j];
            q++;
          }
          if (!fine) continue;
          Vec r = Vec::Zero(2 * n + m);
          r.head(2 * n) = X0;
          X = B.partialPivLu().solve(r).head(2 * n);
        }
        Vec dv = Vec::Zero(n);
        bool clear = true;
        double xm = X.cwiseAbs().maxCoeff();
        for (auto& T : S.T) {
          Vector3 s{0, 0, 0};
          for (int i = 0; i < 3; i++) s += X(2 * T.v[i]) * F[T.v[i]][0] + X(2 * T.v[i] + 1) * F[T.v[i]][1];
          if (len(s) < 1e-5 * xm) clear = false;
          s = s / len(s);
          for (int i = 0; i < 3; i++) {
            double w = .5 / std::tan(T.ang((i + 2) % 3));
            double val = w * dp(in.p[T.v[(i + 1) % 3]] - in.p[T.v[i]], s);
            dv(T.v[i]) += val;
            dv(T.v[(i + 1) % 3]) -= val;
          }
        }
        if (!clear) {
          ctx.outcome("no clear direction");
          continue;
        }
        Vec phi;
        std::vector<std::vector<size_t>> nodes; // without the repeated end of a loop
        std::set<size_t> all;
        for (auto& c : cs) {
          nodes.push_back(c);
          if (c.front() == c.back()) nodes.back().pop_back();
          all.insert(c.begin(), c.end());
        }
        bool upToConstant = false;
        if (o.levelSetConstraint == LevelSetConstraint::None) {
          phi = P.solve(dv);
          double sh = 0, W = 0;
          for (auto& c : cs)
            for (size_t s = 0; s + 1 < c.size(); s++) {
              double l = len(in.p[c[s + 1]] - in.p[c[s]]);
              sh += .5 * l * (phi(c[s]) + phi(c[s + 1]));
              W += l;
            }
          phi = phi.array() - sh / W;
        } else if (o.levelSetConstraint == LevelSetConstraint::ZeroSet) {
          Mat B = L;
          Vec r = dv;
          if (o.softLevelSetWeight < 0)
            for (size_t v : all) {
              B.row(v).setZero();
              B(v, v) = 1;
              r(v) = 0;
            }
          else
            for (size_t v : all) B(v, v) += o.softLevelSetWeight;
          phi = B.partialPivLu().solve(r);
        } else {
          std::vector<Vec> rows;
          for (auto& c : nodes)
            for (size_t s = 1; s < c.size(); s++) {
              Vec w = Vec::Zero(n);
              w(c[s]) -= 1;
              w(c[0]) += 1;
              rows.push_back(w);
            }
          size_t m = rows.size();
          upToConstant = true;
          if (o.softLevelSetWeight < 0) {
            Mat B = Mat::Zero(n + m, n + m);
            B.topLeftCorner(n, n) = L + 1e-8 * Mat::Identity(n, n);
            for (size_t i = 0; i < m; i++) {
              B.block(0, n + i, n, 1) = rows[i];
              B.block(n + i, 0, 1, n) = rows[i].transpose();
            }
            Vec r = Vec::Zero(n + m);
            r.head(n) = dv;
            phi = B.partialPivLu().solve(r).head(n);
          } else {
            Mat B = L + 1e-8 * Mat::Identity(n, n);
            for (auto& w : rows) B += o.softLevelSetWeight * w * w.transpose();
            phi = B.partialPivLu().solve(dv);
          }
        }
        std::vector<std::vector<Point>> cp;
        std::string w;
        for (auto& c : cs) {
          std::vector<Point> q;
          for (size_t v : c) q.push_back(cloud.point(v)), w += cat(v, " ");
          w += "; ";
          cp.push_back(q);
        }
        std::string name = cat("signed distance", o.preserveSourceNormals ? " preserving normals" : "", o.levelSetConstraint == LevelSetConstraint::None ? "" : o.levelSetConstraint == LevelSetConstraint::ZeroSet ? " zero set" : " level sets", o.softLevelSetWeight > 0 ? " softly" : "", tag);
        PointData<double> d(cloud, 0.);
        try {
          d = solver.computeSignedDistance(cp, normals, o);
        } catch (std::exception& e) {
          bad(name, cat("throws ", e.what(), " for ", w));
          continue;
        }
        if (upToConstant) { // (determined up to a constant)
          double a = phi.mean(), b = d.toVector().mean();
          phi = phi.array() - a;
          for (size_t i = 0; i < n; i++) d[i] -= b;
        }
        std::string why;
        if (differ(phi, d, 1e-3, why)) bad(name, cat("from ", w, why));
        ctx.outcome(cat("signed ", opt));
      }
  }
};
// ---------------------------------------------------------------------------------------------------- the container
struct MyCloud : PointCloud {
  MyCloud(size_t n) : PointCloud(n) {}
  Point add() { return getNewPoint(); }
  void del(Point p) { deleteElement(p); }
};
static void containers(Ctx& ctx, size_t n0, const std::vector<int>& ops) {
  std::string id = cat("container", n0);
  for (int o : ops) id += cat("-", o);
  if (!ctx.begin(id)) return;
  ctx.state(hashStr(id));
  MyCloud c(n0);
  PointData<int> val(c, -1);
  std::vector<int> ref; // values of the live points in order
  std::set<std::string> seen;
  auto bad = [&](const std::string& k, const std::string& m) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + m + " [" + id + "]");
  };
  int next = 0;
  for (Point p : c.points()) {
    val[p] = next;
    ref.push_back(next++);
  }
  auto check = [&](const char* when) {
    std::vector<int> got;
    PointData<size_t> ind = c.getPointIndices();
    size_t k = 0;
    for (Point p : c.points()) {
      got.push_back(val[p]);
      if (ind[p] != k++) bad("indices", when);
    }
    if (got != ref) bad("points", cat(when, ": ", got.size(), " points should be ", ref.size(), ", or other values"));
    if (c.nPoints() != ref.size()) bad("nPoints", cat(when, ": ", c.nPoints(), " should be ", ref.size()));
    try {
      c.validateConnectivity();
    } catch (std::exception& e) { bad("validate", cat(when, ": ", e.what())); }
    if (c.isCompressed())
      for (size_t i = 0; i < ref.size(); i++)
        if (val[c.point(i)] != ref[i] || val[i] != ref[i]) bad("compressed", when);
    auto v = val.toVector();
    for (size_t i = 0; i < ref.size() && i < (size_t)v.size(); i++)
      if (v[i] != ref[i]) bad("toVector", when);
    if ((size_t)v.size() != ref.size()) bad("toVector", cat(when, " size"));
    auto d = c.copy();
    PointData<int> w = val.reinterpretTo(*d);
    std::vector<int> g2;
    for (Point p : d->points()) g2.push_back(w[p]);
    if (g2 != ref) bad("copy", when);
    ctx.transition();
  };
  check("at first");
  for (int o : ops) {
    std::vector<Point> all;
    for (Point p : c.points()) all.push_back(p);
    if (o == 0) {
      Point p = c.add();
      if (val[p] != -1) bad("new point", cat("has value ", val[p], " instead of the default"));
      val[p] = next;
      ref.push_back(next++);
    } else if (o == 1) {
      c.compress();
      if (!c.isCompressed()) bad("compress", "not compressed");
    } else {
      size_t i = o == 2 ? 0 : o == 3 ? all.size() / 2 : all.size() - 1;
      if (!all.size()) continue;
      c.del(all[i]);
      ref.erase(ref.begin() + i);
    }
    check(cat("after ", o).c_str());
  }
  // data which outlives its cloud
  {
    std::unique_ptr<MyCloud> d(new MyCloud(n0));
    PointData<int> a(*d, 3), b(*d, 4), e = a;
    d.reset();
    b = a;
    PointData<int> f = std::move(a);
    for (size_t i = 0; i < n0; i++)
      if (e[i] != 3 || b[i] != 3 || f[i] != 3) bad("data of a deleted cloud", cat(i));
  }
  ctx.outcome("container");
}
static void samples(Ctx& ctx) {
  // samples lie where their surface points say
  for (int m = 0; m < 3; m++) {
    std::string id = cat("sample", m);
    if (!ctx.begin(id)) continue;
    ctx.state(hashStr(id));
    std::vector<std::vector<size_t>> P;
    Pts x;
    if (m == 0) P = {{0, 1, 2}, {2, 1, 3}}, x = {{0, 0, 0}, {3, 0, 0}, {0, 1, 0}, {5, 1, 2}};
    if (m == 1) P = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}, x = {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {1, 1, 3}};
    if (m == 2) P = {{0, 1, 2}, {0, 1, 3}, {0, 1, 4}}, x = {{0, 0, 0}, {0, 0, 2}, {1, 0, 0}, {0, 1, 1}, {-1, -1, 0}};
    std::unique_ptr<surface::SurfaceMesh> mesh;
    std::unique_ptr<surface::VertexPositionGeometry> geom;
    std::tie(mesh, geom) = surface::makeSurfaceMeshAndGeometry(P, x);
    for (size_t n : {0, 1, 2, 7, 200}) {
      auto r = uniformlySamplePointsOnSurface(*mesh, *geom, n);
      if (std::get<0>(r)->nPoints() != n) ctx.fail("samples|" + id, cat("wrong number of samples ", std::get<0>(r)->nPoints()));
      for (Point p : std::get<0>(r)->points()) {
        Vector3 q = std::get<1>(r)[p];
        surface::SurfacePoint s = std::get<2>(r)[p];
        double sum = 0;
        Vector3 w{0, 0, 0};
        if (s.type != surface::SurfacePointType::Face) {
          ctx.fail("sample source|" + id, "not in a face");
          continue;
        }
        surface::Halfedge h = s.face.halfedge();
        for (int i = 0; i < 3; i++, h = h.next()) {
          if (!(s.faceCoords[i] >= 0 && s.faceCoords[i] <= 1)) ctx.fail("sample coordinates|" + id, cat(s));
          sum += s.faceCoords[i];
          w += s.faceCoords[i] * x[h.vertex().getIndex()];
        }
        if (std::abs(sum - 1) > 1e-9 || len(w - q) > 1e-9) ctx.fail("sample position|" + id, cat(s, " is at ", q, " should be ", w));
        ctx.transition();
      }
    }
    ctx.outcome("samples");
  }
}
int main(int argc, char** argv) {
  bool heat = false;
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]) == "--heat") heat = true;
  mc::Options o;
  o.property = heat ? "C36" : "C25";
  o.technique = "exhaustive enumeration of small point clouds, neighborhood sizes and histories on the real code";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = heat ? "every source point, pairs and short paths of neighbors on every cloud with every option, against dense solvers"
                : "every point of every cloud with every neighborhood size and kind of frames, all pairs of required quantities with moves, drops and purges, all container histories up to the depth";
  o.assumptions = {"degenerate neighborhoods (cocircular or collinear neighbors) are judged for consistency only"};
  o.exhaustive = true;
  o.caseCpuLimit = 60;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    auto cl = clouds(T);
    for (auto& c : cl)
      for (int how = 0; how < 3; how++) {
        if (heat) {
          for (double t : {1., .5, 5.}) {
            if (!T && t == .5) continue;
            std::string id = cat(c.name, "-f", how, "-t", t);
            unsigned k = std::min<size_t>(c.p.size() - 1, 8);
            if (ctx.begin(id)) {
              ctx.state(hashStr(id));
              Case(ctx, id, c).heat(how, k, t, T);
            }
            if (t == 5. && !T) continue;
            id += "-signed";
            if (ctx.begin(id)) {
              ctx.state(hashStr(id));
              Case(ctx, id, c).signedDistance(how, k, t, T);
            }
          }
          continue;
        }
        for (unsigned k = 1; k < std::min<size_t>(c.p.size(), T ? 16 : 10); k++) {
          std::string id = cat(c.name, "-f", how, "-k", k);
          if (!ctx.begin(id)) continue;
          ctx.state(hashStr(id));
          Case(ctx, id, c).quantities(how, k);
        }
        if (c.p.size() <= 12 || T) {
          std::string id = cat(c.name, "-f", how, "-histories");
          if (!ctx.begin(id)) continue;
          ctx.state(hashStr(id));
          Case(ctx, id, c).histories(how, 5, T);
        }
      }
    if (heat) return;
    int depth = T ? 7 : 5;
    std::function<void(size_t, std::vector<int>&)> rec = [&](size_t n0, std::vector<int>& ops) {
      containers(ctx, n0, ops);
      if ((int)ops.size() == depth) return;
      for (int o = 0; o < 5; o++) {
        ops.push_back(o);
        rec(n0, ops);
        ops.pop_back();
      }
    };
    for (size_t n0 = 0; n0 < 4; n0++) {
      std::vector<int> ops;
      rec(n0, ops);
    }
    samples(ctx);
  });
}
