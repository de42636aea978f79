// C23: direction fields and their singularities, against dense reference problems set up from per-element frames.
#include "suite.h"
#include "ops.h"
#include "geometrycentral/surface/direction_fields.h"
#include <iostream>
using namespace mc;
using namespace geometrycentral;
using namespace geometrycentral::surface;
typedef std::complex<double> C;
using ops::CMat;
using ops::CVec;
static const double PI2 = 2 * geo::PI;
static C c(Vector2 v) { return C(v.x, v.y); }
static double wrap(double a) { return a - PI2 * std::round(a / PI2); }

// directions of the halfedges in the tangent space of their tail (one turn, or half a turn on the boundary, per vertex)
// and in the plane of their face, and the areas and weights needed
struct Frames {
  ops::Surf S;
  std::vector<double> inV, inF; // by halfedge index
  std::vector<bool> bdyV, has;
  std::vector<double> w;
  Frames(ManifoldSurfaceMesh& m, const EdgeData<double>& len) : S(m, len) {
    size_t n = 0;
    for (Halfedge h : m.halfedges()) n = std::max(n, h.getIndex() + 1);
    inV.assign(n, 0);
    inF.assign(n, 0);
    std::vector<double> corner(n, 0);
    for (auto& t : S.T)
      for (int i = 0; i < 3; i++) {
        corner[t.h[i].getIndex()] = t.ang(i);
        inF[t.h[i].getIndex()] = std::arg(t.q[(i + 1) % 3] - t.q[i]);
      }
    for (Vertex v : m.vertices()) {
      double sum = 0;
      bool bdy = false;
      // counterclockwise, starting with the vertex's halfedge
      std::vector<std::pair<Halfedge, double>> at;
      Halfedge h = v.halfedge();
      do {
        at.push_back({h, sum});
        if (!h.isInterior()) {
          bdy = true;
          break;
        }
        sum += corner[h.getIndex()];
        h = h.next().next().twin();
      } while (h != v.halfedge());
      for (auto& x : at) inV[x.first.getIndex()] = x.second * (bdy ? geo::PI : PI2) / sum;
    }
    w = S.cotans();
  }
  // rotation which takes vectors at the tail of h to its tip
  double along(Halfedge h) const { return inV[h.twin().getIndex()] + geo::PI - inV[h.getIndex()]; }
  // rotation which takes vectors in the face of h to the other side
  double across(Halfedge h) const { return inF[h.twin().getIndex()] + geo::PI - inF[h.getIndex()]; }
  CMat vertexEnergy(int n) const {
    CMat A = CMat::Zero(S.nV, S.nV);
    for (Edge e : S.m.edges()) {
      Halfedge h = e.halfedge();
      size_t a = S.idx(h.vertex()), b = S.idx(h.twin().vertex());
      double k = w[S.idx(e)];
      C r = std::polar(1., n * along(h)); // |x_b - r x_a|^2
      A(a, a) += k;
      A(b, b) += k;
      A(b, a) -= k * r;
      A(a, b) -= k * std::conj(r);
    }
    return A + 1e-9 * CMat::Identity(S.nV, S.nV);
  }
  CMat faceEnergy(int n) const {
    CMat A = CMat::Zero(S.T.size(), S.T.size());
    for (Edge e : S.m.edges()) {
      if (e.isBoundary()) continue;
      Halfedge h = e.halfedge();
      size_t a = S.fi.at(h.face().getIndex()), b = S.fi.at(h.twin().face().getIndex());
      C r = std::polar(1., n * across(h));
      A(a, a) += 1.;
      A(b, b) += 1.;
      A(b, a) -= r;
      A(a, b) -= std::conj(r);
    }
    return A + 1e-9 * CMat::Identity(S.T.size(), S.T.size());
  }
  CMat vertexMass() const {
    CMat M = CMat::Zero(S.nV, S.nV);
    for (auto& t : S.T)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) M(t.v[i], t.v[j]) += t.area / 12 * (i == j ? 2 : 1);
    return M;
  }
  CMat faceMass() const {
    CMat M = CMat::Zero(S.T.size(), S.T.size());
    for (size_t i = 0; i < S.T.size(); i++) M(i, i) = S.T[i].area;
    return M;
  }
};

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  Case(Ctx& c, const std::string& i) : ctx(c), id(i) { ctx.state(mc::hashStr(i)); }
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  // the returned unit vectors against a reference up to length (and, for eigenvectors, up to a common rotation)
  void same(const std::string& what, const std::vector<C>& x, const CVec& ref, bool rotate, double tol, const std::string& in) {
    double mx = ref.cwiseAbs().maxCoeff();
    C s = 0;
    for (size_t i = 0; i < x.size(); i++) {
      if (std::abs(ref[i]) < 1e-6 * mx) continue;
      if (!(std::abs(std::abs(x[i]) - 1) < 1e-9)) {
        bad(what, cat("a vector of length ", std::abs(x[i]), " for ", in));
        return;
      }
      s += std::conj(ref[i]) * x[i];
    }
    s = rotate ? s / std::abs(s) : C(1);
    double d = 0;
    for (size_t i = 0; i < x.size(); i++)
      if (std::abs(ref[i]) >= 1e-6 * mx) d = std::max(d, std::abs(x[i] * std::abs(ref[i]) - s * ref[i]) / mx);
    ctx.eval(x.size());
    if (!(d < tol)) bad(what, cat("not the minimizer: off by ", d, " for ", in));
  }
  void smoothest(const std::string& what, const std::vector<C>& x, const CMat& A, const CMat& M, const std::string& in) {
    Eigen::GeneralizedSelfAdjointEigenSolver<CMat> es(A, M);
    if (es.info() != Eigen::Success) return;
    auto l = es.eigenvalues();
    ctx.transition();
    if (l[0] < -1e-9) {
      ctx.outcome("indefinite energy");
      return;
    }
    if (A.rows() > 1 && !(l[0] < .55 * l[1])) {
      ctx.outcome("no unique smoothest field");
      for (auto y : x)
        if (!(std::abs(std::abs(y) - 1) < 1e-9)) ctx.outcome("zero of the field");
      return;
    }
    same(what, x, es.eigenvectors().col(0), true, 1e-5, in);
    ctx.outcome("smoothest");
  }
  void dirichlet(const std::string& what, const std::vector<C>& x, const CMat& A, const std::vector<bool>& fixed, const CVec& b, const std::vector<bool>& judged,
                 const std::string& in) {
    std::vector<size_t> I;
    size_t n = x.size();
    for (size_t i = 0; i < n; i++) {
      if (fixed[i]) {
        if (judged[i] && !(std::abs(x[i] - b[i]) < 1e-7)) bad(what, cat("not aligned with the boundary: ", x[i], " instead of ", b[i], " for ", in));
      } else
        I.push_back(i);
    }
    ctx.transition();
    for (size_t i = 0; i < n; i++)
      if (fixed[i] && !judged[i]) return;
    if (I.empty()) return;
    CMat B(I.size(), I.size());
    CVec r = CVec::Zero(I.size());
    for (size_t i = 0; i < I.size(); i++) {
      for (size_t j = 0; j < I.size(); j++) B(i, j) = A(I[i], I[j]);
      for (size_t j = 0; j < n; j++)
        if (fixed[j]) r[i] -= A(I[i], j) * b[j];
    }
    Eigen::JacobiSVD<CMat> svd(B, Eigen::ComputeFullU | Eigen::ComputeFullV);
    if (svd.singularValues()(I.size() - 1) < 1e-4 * svd.singularValues()(0)) return;
    CVec s = svd.solve(r);
    if (s.cwiseAbs().maxCoeff() < 1e-6) {
      ctx.outcome("boundary values cancel");
      return;
    }
    std::vector<C> y;
    for (size_t i : I) y.push_back(x[i]);
    same(what, y, s, false, 1e-6, in);
    ctx.outcome("interpolated from the boundary");
  }
  void aligned(const std::string& what, const std::vector<C>& x, const CMat& A, const CMat& M, CVec d, const std::string& in) {
    double len = std::sqrt(std::abs((d.adjoint() * M * d)(0, 0)));
    ctx.transition();
    if (len < 1e-6) {
      ctx.outcome("no curvature to align with");
      return;
    }
    Eigen::JacobiSVD<CMat> svd(A, Eigen::ComputeFullU | Eigen::ComputeFullV);
    if (svd.singularValues()(A.rows() - 1) < 1e-5 * svd.singularValues()(0)) {
      ctx.outcome("singular alignment problem");
      return;
    }
    CVec s = svd.solve(M * (d / len));
    same(what, x, s, false, 1e-6, in);
    ctx.outcome("aligned");
  }

  template <class D, class E> std::vector<C> vals(const D& d, E&& elems) {
    std::vector<C> r;
    for (auto e : elems) r.push_back(c(d[e]));
    return r;
  }
  void fields(suite::In& in) {
    IntrinsicGeometryInterface& g = *in.g;
    ManifoldSurfaceMesh& m = *in.mesh;
    g.requireEdgeLengths();
    Frames F(m, g.edgeLengths);
    ops::Surf& S = F.S;
    if (S.skinny < 5e-3) return;
    bool bdy = m.hasBoundary();
    std::vector<bool> fv(S.nV), ff(S.T.size()), jv(S.nV, true), jf(S.T.size(), true);
    for (Vertex v : m.vertices()) fv[S.idx(v)] = v.isBoundary();
    for (auto& t : S.T) {
      int k = 0;
      for (int i = 0; i < 3; i++) k += t.h[i].edge().isBoundary();
      ff[S.fi.at(t.f.getIndex())] = k > 0;
      jf[S.fi.at(t.f.getIndex())] = k < 3;
    }
    CMat MV = F.vertexMass(), MF = F.faceMass();
    bool conn = S.connected();
    for (int n : {1, 2, 3, 4, 6}) {
      std::string tag = cat("n = ", n);
      CMat AV = F.vertexEnergy(n), AF = F.faceEnergy(n);
      std::vector<C> xv, xf;
      if (conn) {
        auto dv = computeSmoothestVertexDirectionField(g, n);
        auto df = computeSmoothestFaceDirectionField(g, n);
        smoothest("smoothest field on vertices", vals(dv, m.vertices()), AV, MV, tag);
        smoothest("smoothest field on faces", vals(df, m.faces()), AF, MF, tag);
        bool okv = true, okf = true;
        for (Vertex v : m.vertices()) okv = okv && std::isfinite(dv[v].x);
        for (Face f : m.faces()) okf = okf && std::isfinite(df[f].x);
        if (okv) faceIndex(F, g, dv, n);
        if (okf) vertexIndex(F, g, df, n);
      }
      bool threw = false;
      if (!bdy) {
        try {
          computeSmoothestBoundaryAlignedVertexDirectionField(g, n);
        } catch (std::logic_error&) { threw = true; }
        if (!threw) bad("boundary aligned field on vertices", "accepts a closed surface");
        threw = false;
        try {
          computeSmoothestBoundaryAlignedFaceDirectionField(g, n);
        } catch (std::logic_error&) { threw = true; }
        if (!threw) bad("boundary aligned field on faces", "accepts a closed surface");
      } else {
        CVec bv = CVec::Zero(S.nV), bf = CVec::Zero(S.T.size());
        for (Vertex v : m.vertices())
          if (v.isBoundary()) {
            // half a turn from the first boundary edge to the last: the outward normal is a quarter turn before the first
            bv[S.idx(v)] = std::polar(1., -n * geo::PI / 2 + n * F.inV[v.halfedge().getIndex()]);
          }
        for (auto& t : S.T) {
          C s = 0;
          for (int i = 0; i < 3; i++)
            if (t.h[i].edge().isBoundary()) s += C(0, -1) * (t.q[(i + 1) % 3] - t.q[i]);
          if (std::abs(s) > 0) bf[S.fi.at(t.f.getIndex())] = std::pow(s / std::abs(s), n);
        }
        auto dv = computeSmoothestBoundaryAlignedVertexDirectionField(g, n);
        dirichlet("boundary aligned field on vertices", vals(dv, m.vertices()), AV, fv, bv, jv, tag);
        if (std::find(jf.begin(), jf.end(), false) == jf.end()) // every face has an outward direction
          dirichlet("boundary aligned field on faces", vals(computeSmoothestBoundaryAlignedFaceDirectionField(g, n), m.faces()), AF, ff, bf, jf, tag);
        bool okv = true;
        for (Vertex v : m.vertices()) okv = okv && std::isfinite(dv[v].x);
        if (okv) faceIndex(F, g, dv, n);
      }
      if (in.vpg) {
        std::vector<C> p, q;
        bool bentEnough = true;
        if (n == 2 || n == 4) {
          CVec dv = CVec::Zero(S.nV), df = CVec::Zero(S.T.size());
          auto& pos = in.vpg->vertexPositions;
          for (Edge e : m.edges()) {
            if (e.isBoundary()) continue;
            Halfedge h = e.halfedge(), o = h.twin();
            Vector3 a = pos[h.vertex()], b = pos[o.vertex()];
            Vector3 n1 = cross(b - a, pos[h.next().next().vertex()] - a), n2 = cross(a - b, pos[o.next().next().vertex()] - b);
            double dih = std::atan2(dot(unit(b - a), cross(unit(n1), unit(n2))), dot(unit(n1), unit(n2)));
            if (std::abs(std::abs(dih) - geo::PI) < 1e-6) bentEnough = false;
            double l = S.L[S.idx(e)];
            for (Halfedge k : {h, o}) {
              dv[S.idx(k.vertex())] += -l * dih / 4 * std::polar(1., 2 * F.inV[k.getIndex()]);
              df[S.fi.at(k.face().getIndex())] += -l * dih / 4 * std::polar(1., 2 * F.inF[k.getIndex()]);
            }
          }
          if (n == 4) {
            dv = dv.array() * dv.array();
            df = df.array() * df.array();
          }
          double total = dv.cwiseAbs().maxCoeff() + df.cwiseAbs().maxCoeff();
          if (bentEnough && total > 1e-6) {
            aligned("curvature aligned field on vertices", vals(computeCurvatureAlignedVertexDirectionField(*in.vpg, n), m.vertices()), AV, MV, dv, tag);
            aligned("curvature aligned field on faces", vals(computeCurvatureAlignedFaceDirectionField(*in.vpg, n), m.faces()), AF, MF, df, tag);
          }
        } else {
          for (bool face : {false, true}) {
            threw = false;
            try {
              if (face) computeCurvatureAlignedFaceDirectionField(*in.vpg, n);
              else
                computeCurvatureAlignedVertexDirectionField(*in.vpg, n);
            } catch (std::logic_error&) { threw = true; }
            if (!threw) bad("curvature aligned field", cat("accepts the symmetry order ", n));
          }
        }
      }
    }
    g.unrequireEdgeLengths();
  }
  // ------------------------------------------------------------------------------- singularities
  int chi(const ops::Surf& S) { return (int)S.nV - (int)S.nE + (int)S.T.size(); }
  void faceIndex(const Frames& F, IntrinsicGeometryInterface& g, const VertexData<Vector2>& x, int n) {
    const ops::Surf& S = F.S;
    FaceData<int> got = computeFaceIndex(g, x, n);
    long sum = 0;
    bool clear = true;
    for (auto& t : S.T) {
      double tot = 0, hol = 0, amb = 0;
      for (int i = 0; i < 3; i++) {
        Halfedge h = t.h[i];
        double r = F.along(h);
        double d = std::arg(c(x[h.twin().vertex()]) / c(x[h.vertex()]) * std::polar(1., -n * r));
        amb = std::max(amb, std::abs(d));
        tot += d;
        // the scaled corner angle, between this side and the previous one
        double a = F.inV[t.h[(i + 2) % 3].twin().getIndex()] - F.inV[h.getIndex()];
        a -= PI2 * std::floor(a / PI2 + 1e-12);
        hol += a;
      }
      tot += n * (hol - geo::PI);
      double k = std::round(tot / PI2);
      if (std::abs(tot / PI2 - k) > 1e-6) throw std::runtime_error(cat("index which is not a whole number: ", tot / PI2));
      if (amb > geo::PI - 1e-6) {
        clear = false;
        continue;
      }
      if (got[t.f] != (int)k) bad("index of a face", cat(got[t.f], " instead of ", k, " on face ", t.f.getIndex(), " for n = ", n));
      sum += got[t.f];
      ctx.eval();
      if (k != 0) ctx.outcome(cat("singular face ", std::min(3., std::abs(k))));
    }
    if (clear && !S.m.hasBoundary() && sum != (long)n * chi(S)) bad("index of a face", cat("they add up to ", sum, " for n = ", n, " and the Euler characteristic ", chi(S)));
    ctx.trace();
  }
  void vertexIndex(const Frames& F, IntrinsicGeometryInterface& g, const FaceData<Vector2>& x, int n) {
    const ops::Surf& S = F.S;
    VertexData<int> got = computeVertexIndex(g, x, n);
    std::vector<double> tot(S.nV, 0), amb(S.nV, 0);
    std::vector<double> sum(S.nV, 0);
    long total = 0;
    bool clear = true;
    for (auto& t : S.T)
      for (int i = 0; i < 3; i++) sum[t.v[i]] += t.ang(i);
    // counterclockwise around a vertex: from the right to the left of each outgoing halfedge
    for (Halfedge h : S.m.halfedges()) {
      if (h.edge().isBoundary()) continue;
      Halfedge o = h.twin();
      double d = std::arg(c(x[h.face()]) / c(x[o.face()]) * std::polar(1., -n * F.across(o)));
      size_t v = S.idx(h.vertex());
      tot[v] += d;
      amb[v] = std::max(amb[v], std::abs(d));
    }
    for (Vertex v : S.m.vertices()) {
      size_t i = S.idx(v);
      if (v.isBoundary()) {
        if (got[v] != 0) bad("index of a vertex", cat(got[v], " on the boundary"));
        continue;
      }
      double z = (tot[i] + n * (PI2 - sum[i])) / PI2, k = std::round(z);
      if (std::abs(z - k) > 1e-6) throw std::runtime_error(cat("index which is not a whole number: ", z));
      if (amb[i] > geo::PI - 1e-6) {
        clear = false;
        continue;
      }
      if (got[v] != (int)k) bad("index of a vertex", cat(got[v], " instead of ", k, " for n = ", n));
      total += got[v];
      ctx.eval();
      if (k != 0) ctx.outcome(cat("singular vertex ", std::min(3., std::abs(k))));
    }
    if (clear && !S.m.hasBoundary() && total != (long)n * chi(S)) bad("index of a vertex", cat("they add up to ", total, " for n = ", n, " and the Euler characteristic ", chi(S)));
    ctx.trace();
  }
  // every field with values at the elements taken from k directions (some of them not of unit length)
  void indices(suite::In& in, size_t limit) {
    IntrinsicGeometryInterface& g = *in.g;
    ManifoldSurfaceMesh& m = *in.mesh;
    g.requireEdgeLengths();
    Frames F(m, g.edgeLengths);
    g.unrequireEdgeLengths();
    if (F.S.skinny < 1e-4) return;
    auto all = [&](size_t count, const std::function<void(const std::vector<size_t>&, size_t k)>& f) {
      for (size_t k = 8; k > 1; k--) {
        double N = std::pow((double)k, (double)count - 1);
        if (N > limit) continue;
        std::vector<size_t> d(count, 0);
        while (true) { // the first value is fixed
          f(d, k);
          size_t i = 1;
          while (i < count && ++d[i] == k) d[i++] = 0;
          if (i >= count) break;
        }
        ctx.outcome(cat("all fields from ", k, " directions"));
        return;
      }
      // too many: every single deviation from a few fixed patterns
      for (size_t pat = 0; pat < 6; pat++)
        for (size_t j = 0; j < count; j++)
          for (size_t s = 1; s < 7; s += 2) {
            std::vector<size_t> d(count);
            for (size_t i = 0; i < count; i++) d[i] = pat < 2 ? i * pat : (i * i * pat + 3 * i) % 7;
            d[j] += s;
            f(d, 7);
          }
      ctx.outcome("patterns");
    };
    auto value = [](size_t i, size_t d, size_t k) { return (d % 3 ? 1. : 2.5) * Vector2::fromAngle(PI2 * d / k + .37 * (i % 5) + .1); };
    for (int n : {1, 2, 3, 4}) {
      all(F.S.nV, [&](const std::vector<size_t>& d, size_t k) {
        VertexData<Vector2> x(m);
        size_t i = 0;
        for (Vertex v : m.vertices()) {
          x[v] = value(i, d[i], k);
          i++;
        }
        faceIndex(F, g, x, n);
      });
      all(F.S.T.size(), [&](const std::vector<size_t>& d, size_t k) {
        FaceData<Vector2> x(m);
        size_t i = 0;
        for (Face f : m.faces()) {
          x[f] = value(i, d[i], k);
          i++;
        }
        vertexIndex(F, g, x, n);
      });
    }
  }
};

int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C23";
  o.technique = "exhaustive enumeration of bounded surfaces, symmetry orders and direction fields, run through the real field solvers and index computations and compared with dense "
                "reference problems and counted rotations";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "The smoothest n-direction field on vertices or faces is the (normalized) minimizer of the connection Dirichlet energy among fields of unit norm; the boundary-aligned one takes "
           "the n-th power of the outward normal on the boundary and minimizes the energy otherwise; the curvature-aligned one solves the energy against the principal directions (n = 2, 4) "
           "and rejects other orders; closed surfaces have no boundary-aligned field; indices are the counted rotations in each face or vertex, and add up to n times the Euler characteristic "
           "on closed surfaces";
  o.assumptions = {"the smoothest field is compared where it is unique (a gap between the two smallest eigenvalues) and the energy is positive semidefinite; values at zeros of the solution "
                   "are not judged",
                   "index comparisons leave out pairs of neighboring vectors which are exactly opposite", "faces whose three sides are all on the boundary have no outward normal"};
  return mc::run(argc, argv, o, [&](mc::Ctx& ctx) {
    bool T = ctx.thorough;
    auto go = [&](suite::In& in, bool idx, size_t limit) {
      std::string id = in.name;
      if (ctx.begin(id)) {
        in.build();
        Case c(ctx, id);
        c.fields(in);
      }
      if (idx && ctx.begin(id + "/index")) {
        suite::In f = std::move(in);
        f.build();
        Case c(ctx, id);
        c.indices(f, limit);
      }
    };
    for (auto& s : suite::triShapes(T)) {
      suite::In in = suite::from(s);
      go(in, true, T ? 4096 : 600);
      suite::In j = suite::from(suite::jitter(s, .25));
      j.name += "25";
      go(j, true, T ? 4096 : 600);
      suite::In h = suite::from(suite::jitter(s, .2));
      if (ctx.begin(h.name + "holes")) {
        h.build();
        if (suite::punch(h)) {
          Case c(ctx, h.name);
          c.fields(h);
          c.indices(h, T ? 600 : 60);
          ctx.outcome("after edge collapses");
        }
      }
    }
    for (size_t nf = 1; nf <= (T ? 3u : 2u); nf++)
      suite::glued(nf, nf < 3 ? std::vector<double>{1, 1.3, .8} : std::vector<double>{1, 1.3}, true, [&](suite::In& in) { go(in, true, nf == 3 ? 125 : T ? 4096 : 600); });
  });
}
