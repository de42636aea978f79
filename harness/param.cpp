// C24: boundary first flattening, uniformization of disks and layout, against dense reference solutions.
#include "suite.h"
#include "ops.h"
#include "glue.h"
#include "geometrycentral/surface/boundary_first_flattening.h"
#include "geometrycentral/surface/parameterize.h"
#include "geometrycentral/surface/uniformize.h"
#include <iostream>
using namespace mc;
typedef std::complex<double> C;
typedef Eigen::VectorXd Vec;
static const double PI2 = 2 * geo::PI;

struct Mute {
  std::streambuf* b;
  std::ostringstream o;
  Mute() : b(std::cout.rdbuf(getenv("LOUD") ? std::cout.rdbuf() : o.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(b); }
};
static std::vector<double> defects(const Glue& g, const std::vector<bool>& bdy, double& skinny) {
  std::vector<double> K(g.nV);
  for (int v = 0; v < g.nV; v++) K[v] = bdy[v] ? geo::PI : PI2;
  skinny = 1e300;
  for (size_t t = 0; t < g.v.size(); t++)
    for (int i = 0; i < 3; i++) {
      double a = g.l[t][(i + 1) % 3], b = g.l[t][i], c = g.l[t][(i + 2) % 3]; // opposite corner i: side i+1
      double x = (b * b + c * c - a * a) / (2 * b * c);
      skinny = std::min(skinny, 1 - std::abs(x));
      K[g.v[t][i]] -= std::acos(std::max(-1., std::min(1., x)));
    }
  return K;
}
// lengths which make all interior vertices flat, without scaling the boundary; false if the iteration does not get there
// (damped: with half steps only, and staying clear of degenerate triangles)
static bool flatten(Glue& g, const std::vector<bool>& bdy, bool flips, bool damped = false) {
  if (flips && !g.delaunay(true)) return false;
  double sk;
  auto err = [&](const Glue& h) {
    auto K = defects(h, bdy, sk);
    double e = 0;
    for (int v = 0; v < g.nV; v++)
      if (!bdy[v]) e += K[v] * K[v];
    return std::sqrt(e);
  };
  std::vector<int> in;
  for (int v = 0; v < g.nV; v++)
    if (!bdy[v]) in.push_back(v);
  double e = err(g);
  if (sk < (damped ? 1e-3 : 1e-6)) return false;
  for (int it = 0; it < 100 && e > 1e-13; it++) {
    Mat A = g.lap(), B(in.size(), in.size());
    auto K = defects(g, bdy, sk);
    Vec r(in.size());
    for (size_t i = 0; i < in.size(); i++) {
      r[i] = -K[in[i]];
      for (size_t j = 0; j < in.size(); j++) B(i, j) = A(in[i], in[j]);
    }
    Vec d = B.fullPivLu().solve(r);
    double t = damped ? .5 : 1;
    bool ok = false;
    for (int k = 0; k < 30 && !ok; k++, t /= 2) {
      Glue h = g;
      std::vector<double> u(g.nV, 0);
      for (size_t i = 0; i < in.size(); i++) u[in[i]] = t * d[i];
      for (size_t f = 0; f < h.v.size(); f++)
        for (int i = 0; i < 3; i++) h.l[f][i] *= std::exp((u[h.v[f][i]] + u[h.v[f][(i + 1) % 3]]) / 2);
      if (flips && !h.delaunay(true)) return false;
      double n = err(h);
      if (damped && !(sk > 1e-3)) return false;
      if (damped || (sk > 1e-6 && n < e)) {
        g = h;
        e = n;
        ok = true;
      }
    }
    if (!ok) break;
  }
  return e < 1e-10;
}
// best rigid motion taking a to b; the remaining distance
static double apart(const std::vector<C>& a, const std::vector<C>& b) {
  C ca = 0, cb = 0;
  for (auto x : a) ca += x / (double)a.size();
  for (auto x : b) cb += x / (double)b.size();
  C s = 0;
  for (size_t i = 0; i < a.size(); i++) s += std::conj(a[i] - ca) * (b[i] - cb);
  C r = std::abs(s) > 0 ? s / std::abs(s) : C(1);
  double d = 0;
  for (size_t i = 0; i < a.size(); i++) d = std::max(d, std::abs(r * (a[i] - ca) - (b[i] - cb)));
  return d;
}

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  Case(Ctx& c, const std::string& i) : ctx(c), id(i) {}
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  void notDisk(ManifoldSurfaceMesh& m, IntrinsicGeometryInterface& g) {
    bool threw = false;
    try {
      BFF b(m, g);
    } catch (std::exception&) { threw = true; }
    if (!threw) bad("flattening", "accepts a surface which is not a disk");
    ctx.outcome("not a disk");
  }
  // ---------------------------------------------------------------- boundary first flattening
  void bff(ManifoldSurfaceMesh& m, IntrinsicGeometryInterface& g) {
    g.requireEdgeLengths();
    ops::Surf S(m, g.edgeLengths);
    g.unrequireEdgeLengths();
    if (S.skinny < 1e-3) return;
    size_t n = S.nV;
    Mat A = S.lap();
    std::vector<double> Om(n, 0);
    std::vector<size_t> bd, in, pos(n, 0);
    std::vector<double> bl;
    std::vector<Vertex> vs;
    for (Vertex v : m.vertices()) vs.push_back(v);
    Halfedge h0 = m.boundaryLoop(0).halfedge();
    for (BoundaryLoop b : m.boundaryLoops()) h0 = b.halfedge();
    // counterclockwise around the disk: against the boundary loop
    {
      std::vector<Halfedge> hs;
      Halfedge h = h0;
      do {
        hs.push_back(h);
        h = h.next();
      } while (h != h0);
      std::reverse(hs.begin(), hs.end());
      for (Halfedge x : hs) {
        bd.push_back(S.idx(x.twin().vertex()));
        bl.push_back(S.L[S.idx(x.edge())]);
      }
    }
    size_t nb = bd.size();
    if (nb < 3) return; // not a polygon
    std::vector<bool> isB(n, false);
    for (size_t i = 0; i < nb; i++) isB[bd[i]] = true, pos[bd[i]] = i;
    for (size_t v = 0; v < n; v++)
      if (!isB[v]) pos[v] = in.size(), in.push_back(v);
    for (size_t v = 0; v < n; v++) Om[v] = isB[v] ? geo::PI : PI2;
    for (auto& t : S.T)
      for (int i = 0; i < 3; i++) Om[t.v[i]] -= t.ang(i);
    size_t ni = in.size();
    Mat Aii(ni, ni), Aib(ni, nb), Abb(nb, nb);
    Vec Oi(ni), Ob(nb);
    for (size_t i = 0; i < ni; i++) {
      Oi[i] = Om[in[i]];
      for (size_t j = 0; j < ni; j++) Aii(i, j) = A(in[i], in[j]);
      for (size_t j = 0; j < nb; j++) Aib(i, j) = A(in[i], bd[j]);
    }
    for (size_t i = 0; i < nb; i++) {
      Ob[i] = Om[bd[i]];
      for (size_t j = 0; j < nb; j++) Abb(i, j) = A(bd[i], bd[j]);
    }
    auto inner = [&](const Vec& r) { return ni ? Vec(Aii.ldlt().solve(r)) : Vec(0); };
    auto d2n = [&](const Vec& u) -> Vec { return Ob + Aib.transpose() * inner(-Oi - Aib * u) + Abb * u; };
    auto n2d = [&](const Vec& k) -> Vec {
      Mat B = A;
      B.array() += 1. / n; // fixes the constant
      Vec r(n);
      for (size_t i = 0; i < ni; i++) r[in[i]] = -Oi[i];
      for (size_t i = 0; i < nb; i++) r[bd[i]] = k[i] - Ob[i];
      Vec x = B.fullPivLu().solve(r), u(nb);
      for (size_t i = 0; i < nb; i++) u[i] = x[bd[i]];
      return u.array() - u.mean();
    };
    double worst = 1e300;
    bool closes = true; // the sides do not all have the same direction
    // side i goes from corner i to corner i+1, turning by k at each corner
    auto layout = [&](const Vec& u, const Vec& k, std::vector<C>& x) {
      std::vector<C> T(nb);
      double phi = 0;
      Vec l(nb);
      for (size_t i = 0; i < nb; i++) {
        T[i] = std::polar(1., phi);
        phi += k[(i + 1) % nb];
        l[i] = bl[i] * std::exp((u[i] + u[(i + 1) % nb]) / 2);
      }
      Mat t(2, nb), M = Mat::Zero(2, 2);
      for (size_t i = 0; i < nb; i++) {
        t(0, i) = T[i].real();
        t(1, i) = T[i].imag();
        M += bl[i] * t.col(i) * t.col(i).transpose();
      }
      closes = M.determinant() > 1e-4 * M.trace() * M.trace();
      Vec y = M.inverse() * (t * l);
      C p = 0;
      Vec r(nb);
      std::vector<C> b(nb);
      worst = 1e300;
      for (size_t i = 0; i < nb; i++) {
        r[i] = l[i] - bl[i] * t.col(i).dot(y);
        worst = std::min(worst, r[i] / bl[i]);
        b[i] = p;
        p += r[i] * T[i];
      }
      Vec bx(nb), by(nb);
      for (size_t i = 0; i < nb; i++) bx[i] = b[i].real(), by[i] = b[i].imag();
      Vec ix = inner(-Aib * bx), iy = inner(-Aib * by);
      x.assign(n, 0);
      for (size_t i = 0; i < ni; i++) x[in[i]] = C(ix[i], iy[i]);
      for (size_t i = 0; i < nb; i++) x[bd[i]] = b[i];
      double e = std::abs(p);
      if (e > 1e-9) worst = -1; // the angles do not add up
    };
    // the library's order of boundary values
    std::vector<size_t> order;
    for (Vertex v : vs)
      if (v.isBoundary()) order.push_back(pos[S.idx(v)]);
    auto toLib = [&](const Vec& x) {
      Vector<double> r(nb);
      for (size_t i = 0; i < nb; i++) r[i] = x[order[i]];
      return r;
    };
    auto fromLib = [&](const Vector<double>& x) {
      Vec r(nb);
      for (size_t i = 0; i < nb; i++) r[order[i]] = x[i];
      return r;
    };
    auto data = [&](const Vec& x) {
      VertexData<double> d(m, 123.);
      for (size_t i = 0; i < nb; i++) d[vs[bd[i]]] = x[i];
      return d;
    };
    auto got = [&](const VertexData<Vector2>& p) {
      std::vector<C> r;
      for (Vertex v : vs) r.push_back({p[v].x, p[v].y});
      return r;
    };
    double size = 0;
    for (double x : bl) size += x;
    BFF b(m, g);
    auto cmp = [&](const char* what, const VertexData<Vector2>& p, const Vec& u, const Vec& k, const std::string& in) {
      ctx.transition();
      std::vector<C> want;
      layout(u, k, want);
      if (!closes) {
        ctx.outcome("all sides in one direction");
        return;
      }
      auto x = got(p);
      double s = size;
      for (auto y : want) s = std::max(s, std::abs(y));
      for (size_t i = 0; i < n; i++)
        if (!(std::abs(x[i]) < 1e100)) {
          bad(what, "a position that is not finite for " + in);
          return;
        }
      double d = apart(x, want);
      if (d > 1e-7 * s) bad(what, cat("positions are off by ", d, " for ", in));
      // the angles between consecutive sides
      if (worst > 1e-3)
        for (size_t i = 0; i < nb; i++) {
          C e = x[bd[i]] - x[bd[(i + nb - 1) % nb]], f = x[bd[(i + 1) % nb]] - x[bd[i]];
          double a = std::arg(f / e) - k[i];
          a -= PI2 * std::round(a / PI2);
          if (std::abs(a) > 1e-5) bad(what, cat("the exterior angle is off by ", a, " for ", in));
        }
      ctx.outcome(worst > 1e-3 ? "flattened" : "flattened with a reversed side");
    };
    Vec zero = Vec::Zero(nb), one = Vec::Ones(nb);
    // conditions of validity of the comparison
    {
      Mat B = A;
      B.array() += 1. / n;
      Eigen::JacobiSVD<Mat> svd(B);
      if (svd.singularValues()(n - 1) < 1e-3 * svd.singularValues()(0)) return;
    }
    auto fromU = [&](const Vec& u) {
      Vec k = d2n(u), k2 = fromLib(b.dirichletToNeumann(toLib(u)));
      double d = (k - k2).cwiseAbs().maxCoeff();
      if (!(d < 1e-7)) bad("boundary angles of scale factors", cat("off by ", d, " for ", str(std::vector<double>(u.data(), u.data() + nb))));
      if (!(std::abs(k2.sum() - PI2) < 1e-7)) bad("boundary angles of scale factors", cat("add up to ", k2.sum()));
      Vec u2 = fromLib(b.neumannToDirichlet(toLib(k)));
      d = (u2 - (u.array() - u.mean()).matrix()).cwiseAbs().maxCoeff();
      if (!(d < 1e-6)) bad("scale factors of boundary angles", cat("not the inverse: off by ", d));
      std::string what = "scale factors " + str(std::vector<double>(u.data(), u.data() + nb));
      cmp("flatten from scale factors", b.flattenFromScaleFactors(data(u)), u, k, what);
    };
    auto fromK = [&](const Vec& k) {
      std::string what = "angles " + str(std::vector<double>(k.data(), k.data() + nb));
      Vec u = n2d(k);
      std::vector<C> w;
      layout(u, k, w);
      if (!closes) {
        ctx.outcome("all sides in one direction");
        return;
      }
      cmp("flatten from angles", b.flattenFromExteriorAngles(data(k)), u, k, what);
    };
    cmp("flatten", parameterizeBFF(m, g), zero, d2n(zero), "no scaling");
    cmp("flatten", b.flatten(), zero, d2n(zero), "no scaling (reused)");
    // flat already: an isometry
    {
      double c = 0;
      for (size_t i = 0; i < ni; i++) c = std::max(c, std::abs(Oi[i]));
      if (c < 1e-12) {
        auto x = got(b.flatten());
        for (Edge e : m.edges()) {
          double d = std::abs(x[S.idx(e.firstVertex())] - x[S.idx(e.secondVertex())]);
          if (std::abs(d - S.L[S.idx(e)]) > 1e-7 * size) bad("flatten", cat("a developable disk changes a length from ", S.L[S.idx(e)], " to ", d));
        }
        fromK(Ob);
        ctx.outcome("developable");
      }
    }
    cmp("flatten from scale factors", parameterizeBFFfromScaleFactors(m, g, data(.3 * one)), .3 * one, d2n(.3 * one), "uniform scaling");
    {
      Vec k = one * (PI2 / nb);
      cmp("flatten from angles", parameterizeBFFfromExteriorAngles(m, g, data(k)), n2d(k), k, "equal angles");
      bool threw = false;
      try {
        b.flattenFromExteriorAngles(data(k * 1.1));
      } catch (std::exception&) { threw = true; }
      if (!threw) bad("flatten from angles", "accepts angles which do not add up to a full turn");
      // within the accepted tolerance
      auto x = got(b.flattenFromExteriorAngles(data(k * (1 + 1e-5))));
      std::vector<C> want;
      layout(n2d(k), k, want);
      double s = size;
      for (auto y : want) s = std::max(s, std::abs(y));
      double d = apart(x, want);
      if (!(d < 1e-2 * s)) bad("flatten from angles", cat("angles adding up to a full turn to within 1e-5: off by ", d));
    }
    size_t lim = ctx.thorough ? 6 : 5;
    if (nb <= lim) {
      size_t N = 1;
      for (size_t i = 0; i < nb; i++) N *= 3;
      for (size_t x = 0; x < N; x++) {
        Vec u(nb);
        size_t y = x;
        for (size_t i = 0; i < nb; i++, y /= 3) u[i] = .4 * ((double)(y % 3) - 1);
        fromU(u);
      }
    } else
      for (size_t i = 0; i < nb; i++)
        for (size_t j = 0; j <= i; j++) {
          Vec u = zero;
          u[i] += .5;
          if (j != i) u[j] -= .3;
          fromU(u);
        }
    // turn only at three, or at four, corners
    size_t count = 0;
    for (size_t i = 0; i < nb; i++)
      for (size_t j = i + 1; j < nb; j++)
        for (size_t k = j + 1; k < nb; k++) {
          if (count++ > (ctx.thorough ? 200 : 60)) break;
          Vec a = zero;
          a[i] = a[j] = a[k] = PI2 / 3;
          fromK(a);
          for (size_t l = k + 1; l < nb && l < k + 4; l++) {
            Vec q = zero;
            q[i] = q[j] = q[k] = q[l] = PI2 / 4;
            fromK(q);
          }
        }
    fromK(Ob.array() + (PI2 - Ob.sum()) / nb);
  }
  // ---------------------------------------------------------------- uniformization and layout
  void uniform(ManifoldSurfaceMesh& m, IntrinsicGeometryInterface& g) {
    g.requireEdgeLengths();
    EdgeData<double> len = g.edgeLengths;
    g.unrequireEdgeLengths();
    for (bool flips : {false, true}) {
      auto c = m.copy();
      EdgeLengthGeometry cg(*c, len.reinterpretTo(*c));
      std::map<size_t, int> vi, vj;
      Glue ref = glueOf(m, len, vi), g0 = ref;
      std::vector<bool> bdy(ref.nV);
      for (Vertex v : m.vertices()) bdy[vi[v.getIndex()]] = v.isBoundary();
      bool can = flatten(ref, bdy, flips);
      if (can) {
        Glue d = g0;
        if (!flatten(d, bdy, flips, true)) {
          can = false;
          ctx.outcome("close to degenerate");
        }
      }
      EdgeData<double> l;
      std::string tag = flips ? "uniformize with flips" : "uniformize";
      try {
        Mute mu;
        l = uniformizeDisk(*c, cg, flips);
      } catch (std::exception& x) {
        if (can) bad(tag, cat("throws ", x.what()));
        else ctx.outcome("no flat metric" + std::string(flips ? " with flips" : ""));
        continue;
      }
      ctx.transition();
      if (!can) {
        ctx.outcome("no flat metric" + std::string(flips ? " with flips" : ""));
        continue;
      }
      try {
        c->validateConnectivity();
      } catch (std::exception& x) { bad(tag, cat("leaves an invalid mesh: ", x.what())); }
      Glue res = glueOf(*c, l, vj);
      if (!flips && res.v != g0.v) bad(tag, "changes the mesh");
      double sk;
      auto K = defects(res, bdy, sk);
      double e = 0;
      for (int v = 0; v < res.nV; v++)
        if (!bdy[v]) e = std::max(e, std::abs(K[v]));
      if (!(e < 1e-8)) {
        bad(tag, cat("an interior vertex is not flat: ", e));
        continue;
      }
      auto sorted = ref.lengths(), mine = res.lengths();
      bool same = sorted.size() == mine.size();
      double off = 0;
      for (size_t i = 0; same && i < mine.size(); i++) {
        same = mine[i][0] == sorted[i][0] && mine[i][1] == sorted[i][1];
        off = std::max(off, std::abs(mine[i][2] - sorted[i][2]));
      }
      if (flips) {
        if (res.slack() < 1e-6 || ref.slack() < 1e-6) ctx.outcome("close to other triangulations");
        else if (!same) bad(tag, "another triangulation than the Delaunay one");
        else if (off > 1e-7) bad(tag, cat("a length is off by ", off));
        else ctx.outcome("uniformized with flips");
        for (size_t t = 0; t < res.v.size(); t++)
          for (int i = 0; i < 3; i++)
            if (res.tw[t][i].first >= 0 && res.tw[t][i].first != (int)t && res.score(t, i, true) < -1e-5) bad(tag, "the result is not Delaunay");
        layout(m, g, *c, l);
      } else if (!same || off > 1e-7) bad(tag, cat("a length is off by ", off));
      else ctx.outcome("uniformized");
    }
  }
  void layout(ManifoldSurfaceMesh& m, IntrinsicGeometryInterface& g, ManifoldSurfaceMesh& c, EdgeData<double>& l) {
    VertexData<Vector2> p;
    {
      Mute mu;
      p = parameterizeDisk(m, g);
    }
    ctx.transition();
    double s = 0;
    for (Edge e : c.edges()) s = std::max(s, l[e]);
    for (Edge e : c.edges()) {
      double d = norm(p[m.vertex(e.firstVertex().getIndex())] - p[m.vertex(e.secondVertex().getIndex())]);
      if (!(std::abs(d - l[e]) < 1e-6 * s)) bad("disk layout", cat("a flat length ", l[e], " is drawn with length ", d));
    }
    for (Face f : c.faces()) {
      Vector2 q[3];
      int i = 0;
      for (Vertex v : f.adjacentVertices()) q[i++] = p[m.vertex(v.getIndex())];
      if (cross(q[1] - q[0], q[2] - q[0]) < -1e-7 * s * s) bad("disk layout", "a face is drawn backwards");
    }
    ctx.outcome("laid out");
  }
  void both(ManifoldSurfaceMesh& m, IntrinsicGeometryInterface& g) {
    if (m.nConnectedComponents() != 1) return;
    if (m.eulerCharacteristic() != 2 || m.nBoundaryLoops() != 1) {
      notDisk(m, g);
      return;
    }
    bff(m, g);
    uniform(m, g);
  }
};
int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C24";
  o.technique = "exhaustive enumeration of small disks, boundary scale factor and corner patterns; dense reference solutions";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "every disk made of triangles on five vertices in several positions, every gluing of few triangles with lengths from a list, the suite shapes; all boundary scale factors from three values, all triples and quadruples of corners";
  o.assumptions = {"systems with condition number above 1000 are not compared"};
  o.exhaustive = true;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    auto shapes = suite::triShapes(T);
    for (auto& s : shapes)
      for (int j = 0; j < 3; j++) {
        geo::Shape x = j ? suite::jitter(s, j == 1 ? .25 : .7) : s;
        std::string id = cat(x.name, "-j", j);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        suite::In in = suite::from(x);
        in.build();
        Case(ctx, id).both(*in.mesh, *in.g);
        if (suite::punch(in)) Case(ctx, id + "h").both(*in.mesh, *in.g);
      }
    // every face first, then interior edges collapsed
    for (auto& s : shapes) {
      if (s.P.size() < 12 || s.P.size() > (T ? 60u : 26u)) continue;
      for (size_t k = 0; k < 3 * s.P.size(); k++) {
        std::string id = cat(s.name, "-first", k);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        geo::Shape x = s;
        std::rotate(x.P.begin(), x.P.begin() + k / 3, x.P.end());
        std::rotate(x.P[0].begin(), x.P[0].begin() + k % 3, x.P[0].end());
        suite::In in = suite::from(x);
        in.build();
        if (!suite::punch(in)) continue;
        bool dead = true;
        for (Halfedge h : in.mesh->halfedges()) dead = dead && h.getIndex() != 0;
        if (dead) ctx.outcome("first halfedge deleted");
        Case(ctx, id).both(*in.mesh, *in.g);
      }
    }
    // cones of every size and height: hats, flat, saddles
    for (size_t n = 3; n < (T ? 13u : 9u); n++)
      for (int h = 0; h < 5; h++)
        for (int w = 0; w < 4; w++) {
          geo::Shape s = suite::cone(n, .6 * h, .4 * w);
          if (!ctx.begin(s.name)) continue;
          ctx.state(hashStr(s.name));
          suite::In in = suite::from(s);
          in.build();
          Case(ctx, s.name).both(*in.mesh, *in.g);
        }
    // disks from triangles on five or six vertices
    for (size_t nv = 3; nv <= (T ? 6u : 5u); nv++) {
      gen::Polys tri;
      for (size_t a = 0; a < nv; a++)
        for (size_t b = a + 1; b < nv; b++)
          for (size_t c = b + 1; c < nv; c++) tri.push_back({a, b, c});
      std::vector<geo::Pts> places = {
          {{0, 0, 0}, {2, .1, .2}, {1.9, 2, -.1}, {-.2, 1.8, .3}, {.9, .8, .9}, {.7, -1.1, .4}},
          {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {2, 1, 0}},
          {{0, 0, 0}, {3, 0, .5}, {1, 2, 1}, {2, 1, -1}, {.5, .5, .25}, {1.5, .4, 2}}};
      size_t most = T ? 6 : 5;
      std::vector<size_t> pick;
      std::function<void(size_t)> rec = [&](size_t from) {
        if (!pick.empty()) {
          // orient, if possible, and see whether it is a disk
          gen::Polys P;
          for (size_t i : pick) P.push_back(tri[i]);
          bool ok = gen::connected(P) && gen::allReferenced(P) && gen::maxVert(P) + 1 == nv;
          if (ok) {
            std::vector<int> fixed(P.size(), 0);
            fixed[0] = 1;
            bool more = true;
            while (more && ok) {
              more = false;
              for (size_t i = 0; i < P.size() && ok; i++)
                for (size_t j = 0; j < P.size(); j++)
                  if (fixed[i] && i != j) {
                    for (int a = 0; a < 3; a++)
                      for (int b = 0; b < 3; b++) {
                        bool same = P[i][a] == P[j][b] && P[i][(a + 1) % 3] == P[j][(b + 1) % 3];
                        if (!same) continue;
                        if (fixed[j]) ok = false;
                        else std::swap(P[j][0], P[j][1]);
                        a = b = 3;
                      }
                    bool touch = false;
                    for (int a = 0; a < 3; a++)
                      for (int b = 0; b < 3; b++)
                        if (P[i][a] == P[j][(b + 1) % 3] && P[i][(a + 1) % 3] == P[j][b]) touch = true;
                    if (touch && !fixed[j]) fixed[j] = 1, more = true;
                  }
            }
            gen::HS hs;
            if (ok && gen::manifoldFromPolys(P, hs).empty()) {
              for (size_t k = 0; k < places.size(); k++) {
                std::string id = cat("soup", nv, "-", str(pick), "-", k);
                if (!ctx.begin(id)) continue;
                ctx.state(hashStr(id));
                geo::Pts q(places[k].begin(), places[k].begin() + nv);
                if (!geo::nondegenerate(P, q, 1e-3)) continue;
                suite::In in = suite::from(geo::Shape{id, P, q});
                in.build();
                Case(ctx, id).both(*in.mesh, *in.g);
              }
            }
          }
        }
        if (pick.size() == most) return;
        for (size_t i = from; i < tri.size(); i++) {
          pick.push_back(i);
          rec(i + 1);
          pick.pop_back();
        }
      };
      rec(0);
    }
    for (size_t nf = 1; nf <= (T ? 4u : 3u); nf++)
      suite::glued(nf, nf < 3 ? std::vector<double>{1, 1.4, 2.1} : nf == 3 ? std::vector<double>{1, 1.6} : std::vector<double>{1}, true, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        ctx.state(hashStr(in.name));
        in.build();
        Case(ctx, in.name).both(*in.mesh, *in.g);
      });
  });
}
