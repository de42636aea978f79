// C37: stripe patterns and their isolines, against an own 1-form, eigenproblem and per-face level sets.
#include "suite.h"
#include "ops.h"
#include "geometrycentral/surface/stripe_patterns.h"
#include "geometrycentral/surface/direction_fields.h"
#include <iostream>
using namespace mc;
using namespace geometrycentral;
using namespace geometrycentral::surface;
typedef std::complex<double> C;
using ops::Mat;
using ops::Vec;
static const double PI2 = 2 * geo::PI;
static double wrap(double a) { return a - PI2 * std::round(a / PI2); }
static double dotc(C a, C b) { return a.real() * b.real() + a.imag() * b.imag(); }

// directions of the halfedges in the tangent space of their tail (one turn, or half a turn on the boundary, per vertex)
// and in the plane of their face, and the areas and weights needed
struct Frames {
  ops::Surf S;
  std::vector<double> inV, inF; // by halfedge index
  std::vector<bool> bdyV, has;
  std::vector<double> w;
  Frames(ManifoldSurfaceMesh& m, const EdgeData<double>& len) : S(m, len) {
    size_t n = 0;
    for (Halfedge h : m.halfedges()) n = std::max(n, h.getIndex() + 1);
    inV.assign(n, 0);
    inF.assign(n, 0);
    std::vector<double> corner(n, 0);
    for (auto& t : S.T)
      for (int i = 0; i < 3; i++) {
        corner[t.h[i].getIndex()] = t.ang(i);
        inF[t.h[i].getIndex()] = std::arg(t.q[(i + 1) % 3] - t.q[i]);
      }
    for (Vertex v : m.vertices()) {
      double sum = 0;
      bool bdy = false;
      // counterclockwise, starting with the vertex's halfedge
      std::vector<std::pair<Halfedge, double>> at;
      Halfedge h = v.halfedge();
      do {
        at.push_back({h, sum});
        if (!h.isInterior()) {
          bdy = true;
          break;
        }
        sum += corner[h.getIndex()];
        h = h.next().next().twin();
      } while (h != v.halfedge());
      for (auto& x : at) inV[x.first.getIndex()] = x.second * (bdy ? geo::PI : PI2) / sum;
    }
    w = S.cotans();
  }
  // rotation which takes vectors at the tail of h to its tip
  double along(Halfedge h) const { return inV[h.twin().getIndex()] + geo::PI - inV[h.getIndex()]; }
  // rotation which takes vectors in the face of h to the other side
  double across(Halfedge h) const { return inF[h.twin().getIndex()] + geo::PI - inF[h.getIndex()]; }
};

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  Case(Ctx& c, const std::string& i) : ctx(c), id(i) { ctx.state(hashStr(i)); }
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }

  // ---- isolines of given values
  // is the value 0 (mod 2 pi) attained too close to a corner to say on which side it is?
  static bool close(double a) { return std::abs(wrap(a)) < 1e-7; }
  static std::vector<double> levels(double a, double b) {
    std::vector<double> r;
    double lo = std::min(a, b), hi = std::max(a, b);
    for (double k = std::ceil(lo / PI2); k * PI2 < hi; k++) r.push_back(k * PI2);
    return r;
  }
  struct Line {
    std::vector<Vector3> x;
    std::vector<std::array<size_t, 2>> s;
  };
  void isolines(ManifoldSurfaceMesh& m, VertexPositionGeometry& g, const CornerData<double>& a, const FaceData<int>& n, const FaceData<int>& b, const VertexData<Vector2>& dir, bool connect,
                const Line& out, const std::string& q) {
    struct Pt {
      Edge e;
      double t; // from the edge's first vertex
    };
    // what is expected on each edge, by the faces which have lines
    std::map<Edge, std::vector<double>> want;
    std::map<Edge, size_t> uses;
    for (Face f : m.faces()) {
      bool lines = b[f] == 0 && (n[f] == 0 || connect);
      if (!lines) continue;
      for (Halfedge h : f.adjacentHalfedges()) {
        double u = a[h.corner()], v = a[h.next().corner()] + (h.next() == f.halfedge() ? PI2 * n[f] : 0.);
        if (close(u) || close(v)) {
          ctx.outcome("level through a vertex");
          return;
        }
        std::vector<double> t;
        for (double x : levels(u, v)) {
          double y = (x - u) / (v - u);
          t.push_back(h == h.edge().halfedge() ? y : 1 - y);
        }
        std::sort(t.begin(), t.end());
        if (!want.count(h.edge())) want[h.edge()] = t;
        else if (want[h.edge()].size() != t.size()) {
          ctx.outcome("values which do not match along an edge");
          return;
        }
        uses[h.edge()] += n[f] == 0;
      }
    }
    // the points, by edge
    double L = 0;
    std::map<Edge, std::vector<std::pair<double, size_t>>> got;
    size_t total = 0;
    for (auto& w : want) total += w.second.size();
    if (out.x.size() != total) {
      bad("points", cat(q, ": ", out.x.size(), " points, not ", total));
      return;
    }
    std::vector<Pt> at(out.x.size());
    std::map<Edge, std::vector<char>> taken;
    for (size_t i = 0; i < out.x.size(); i++) {
      bool ok = false;
      double best = 1e300;
      for (auto& w : want) {
        Vector3 A = g.vertexPositions[w.first.halfedge().vertex()], B = g.vertexPositions[w.first.halfedge().twin().vertex()];
        auto& tk = taken[w.first];
        tk.resize(w.second.size(), 0);
        for (size_t k = 0; k < w.second.size() && !ok; k++)
          if (!tk[k] && norm(out.x[i] - (A + w.second[k] * (B - A))) < 1e-7 * (1 + norm(B - A))) {
            ok = true;
            tk[k] = 1;
            at[i] = {w.first, w.second[k]};
          }
        if (ok) break;
      }
      if (!ok) {
        bad("points", cat(q, ": point ", i, " at ", out.x[i], " is not where a level crosses an edge"));
        return;
      }
    }
    ctx.eval(out.x.size());
    std::map<std::pair<size_t, size_t>, size_t> have;
    for (auto& s : out.s) {
      if (s[0] >= out.x.size() || s[1] >= out.x.size()) {
        bad("segments", q + ": a segment names a point that does not exist");
        return;
      }
      have[{std::min(s[0], s[1]), std::max(s[0], s[1])}]++;
    }
    auto pointAt = [&](Edge e, double t) {
      for (size_t i = 0; i < at.size(); i++)
        if (at[i].e == e && std::abs(at[i].t - t) < 1e-9) return i;
      return INVALID_IND;
    };
    for (Face f : m.faces()) { // regular faces: one segment per level, between the points of that level
      if (b[f] != 0 || n[f] != 0) continue;
      std::map<long, std::vector<size_t>> lv;
      for (Halfedge h : f.adjacentHalfedges()) {
        double u = a[h.corner()], v = a[h.next().corner()];
        for (double x : levels(u, v)) {
          double y = (x - u) / (v - u);
          lv[std::lround(x / PI2)].push_back(pointAt(h.edge(), h == h.edge().halfedge() ? y : 1 - y));
        }
      }
      for (auto& l : lv) {
        if (l.second.size() != 2) continue;
        auto key = std::make_pair(std::min(l.second[0], l.second[1]), std::max(l.second[0], l.second[1]));
        auto it = have.find(key);
        if (it == have.end()) {
          bad("segments", cat(q, ": no segment for level ", l.first, " of face ", f.getIndex()));
          return;
        }
        if (--it->second == 0) have.erase(it);
      }
      ctx.eval(lv.size());
    }
    if (!connect) {
      if (!have.empty()) bad("segments", cat(q, ": ", have.size(), " segments too many"));
      return;
    }
    for (Face f : m.faces()) { // singular faces: all but |index| points matched up without crossings
      if (b[f] != 0 || n[f] == 0) continue;
      std::vector<size_t> ring; // around the face
      std::vector<int> side;
      int k = 0;
      for (Halfedge h : f.adjacentHalfedges()) {
        std::vector<std::pair<double, size_t>> r;
        for (size_t i = 0; i < at.size(); i++)
          if (at[i].e == h.edge()) r.push_back({h == h.edge().halfedge() ? at[i].t : 1 - at[i].t, i});
        std::sort(r.begin(), r.end());
        for (auto& x : r) ring.push_back(x.second), side.push_back(k);
        k++;
      }
      std::vector<std::pair<size_t, size_t>> ch;
      for (size_t i = 0; i < ring.size(); i++)
        for (size_t j = i + 1; j < ring.size(); j++) {
          auto it = have.find({std::min(ring[i], ring[j]), std::max(ring[i], ring[j])});
          if (it == have.end() || side[i] == side[j]) continue;
          ch.push_back({i, j});
          if (--it->second == 0) have.erase(it);
        }
      std::set<size_t> used;
      for (auto& c : ch)
        if (!used.insert(c.first).second || !used.insert(c.second).second) bad("singular face", cat(q, ": a point is used twice in face ", f.getIndex()));
      for (auto& c : ch)
        for (auto& d : ch)
          if (c.first < d.first && d.first < c.second && c.second < d.second) bad("singular face", cat(q, ": segments cross in face ", f.getIndex()));
      if (ring.size() - 2 * ch.size() != (size_t)std::abs(n[f])) bad("singular face", cat(q, ": ", ring.size(), " points and ", ch.size(), " segments in face ", f.getIndex(), " of index ", n[f]));
      ctx.outcome("connected across a singular face");
      ctx.eval();
    }
    if (!have.empty()) bad("segments", cat(q, ": ", have.size(), " segments too many"));
  }
  Line extract(VertexPositionGeometry& g, const CornerData<double>& a, const FaceData<int>& n, const FaceData<int>& b, const VertexData<Vector2>& dir, bool connect) {
    Line l;
    std::tie(l.x, l.s) = extractPolylinesFromStripePattern(g, a, n, b, dir, connect);
    ctx.transition();
    return l;
  }

  // ---- the pattern
  void pattern(suite::In& in, const Frames& F, const VertexData<Vector2>& dir, const VertexData<double>& freq, const std::string& q) {
    ManifoldSurfaceMesh& m = *in.mesh;
    ctx.note(q);
    auto root = [&](Vertex v) { return std::polar(1., .5 * std::atan2(dir[v].y, dir[v].x)); };
    size_t nV = F.S.nV;
    Mat A = Mat::Zero(2 * nV, 2 * nV), B = Mat::Zero(2 * nV, 2 * nV);
    // own index of each face
    std::map<size_t, int> index;
    for (auto& t : F.S.T) {
      double sum = -geo::PI;
      for (int i = 0; i < 3; i++) { // the corners, in the scale of the vertices
        double c = F.inV[t.h[i].next().next().twin().getIndex()] - F.inV[t.h[i].getIndex()];
        while (c <= 1e-12) c += PI2;
        sum += c;
      }
      double rot = 2 * sum;
      for (int i = 0; i < 3; i++) {
        Vertex v = t.h[i].vertex(), w = t.h[i].next().vertex();
        double d = wrap(std::atan2(dir[w].y, dir[w].x) - std::atan2(dir[v].y, dir[v].x) - 2 * F.along(t.h[i]));
        if (std::abs(d) > geo::PI - 1e-6) {
          ctx.outcome("opposite directions");
          return;
        }
        rot += d;
      }
      index[t.f.getIndex()] = std::lround(rot / PI2);
    }
    // the 1-form along h for the direction X at its tail; X becomes the continued direction at its tip
    auto omega = [&](Halfedge h, C& X) {
      C Y = root(h.next().vertex());
      C Z = X * std::polar(1., F.along(h));
      if (dotc(Z, Y) < 0) Y = -Y;
      double l = in.M->L[h.edge()];
      double a = F.inV[h.getIndex()], b = F.inV[h.twin().getIndex()] + geo::PI;
      double w = PI2 * .5 * l * (freq[h.vertex()] * std::cos(std::arg(X) - a) + freq[h.next().vertex()] * std::cos(std::arg(Y) - b));
      X = Y;
      return w;
    };
    for (auto& t : F.S.T) { // |z_j - e^{i w} z_i|^2 weighted by half the cotangent, conjugating where the root changes
      if (index[t.f.getIndex()] != 0) continue;
      for (int i = 0; i < 3; i++) {
        size_t a = t.v[i], b = t.v[(i + 1) % 3];
        double k = .5 / std::tan(t.ang((i + 2) % 3));
        C X = root(t.h[i].vertex());
        double w = omega(t.h[i], X);
        double s = dotc(X, root(t.h[i].next().vertex())) > 0 ? 1 : -1;
        Mat R(2, 2); // z -> e^{iw} z, then conjugate
        R << std::cos(w), -std::sin(w), s * std::sin(w), s * std::cos(w);
        A.block(2 * a, 2 * a, 2, 2) += k * Mat::Identity(2, 2);
        A.block(2 * b, 2 * b, 2, 2) += k * Mat::Identity(2, 2);
        A.block(2 * b, 2 * a, 2, 2) -= k * R;
        A.block(2 * a, 2 * b, 2, 2) -= k * R.transpose();
      }
    }
    for (auto& t : F.S.T)
      for (int i = 0; i < 3; i++) B.block(2 * t.v[i], 2 * t.v[i], 2, 2) += t.area / 3 * Mat::Identity(2, 2);
    Eigen::GeneralizedSelfAdjointEigenSolver<Mat> es(A + 1e-4 * Mat::Identity(2 * nV, 2 * nV), B);
    auto l = es.eigenvalues();
    bool definite = es.info() == Eigen::Success && l[0] > 1e-8;
    if (!definite) { // the energy of the paper is not one with these cotangents
      ctx.outcome("indefinite energy");
      return;
    }
    CornerData<double> a;
    FaceData<int> n, b;
    try {
      std::tie(a, n, b) = computeStripePattern(*in.g, freq, dir);
    } catch (std::exception& e) {
      bad("pattern", q + ": " + e.what());
      return;
    }
    ctx.transition();
    for (Face f : m.faces())
      if (b[f] != index[f.getIndex()]) {
        bad("direction field index", cat(q, ": face ", f.getIndex(), " has ", b[f], " not ", index[f.getIndex()]));
        return;
      }
    // the values at the vertices, as seen from the faces
    std::vector<double> phi(nV, 0);
    std::vector<char> set(nV, 0);
    std::map<size_t, std::array<int, 3>> sheet;
    for (auto& t : F.S.T) {
      C X = root(t.h[0].vertex());
      std::array<int, 3> s{1, 1, 1};
      for (int i = 0; i < 2; i++) {
        X = X * std::polar(1., F.along(t.h[i]));
        C Y = root(t.h[i + 1].vertex());
        s[i + 1] = dotc(X, Y) > 0 ? 1 : -1;
        X = double(s[i + 1]) * Y;
      }
      sheet[t.f.getIndex()] = s;
    }
    auto put = [&](const ops::Tri& t, int i, double v, bool& ok) {
      double x = sheet[t.f.getIndex()][i] * v;
      size_t k = t.v[i];
      if (!(std::abs(x) < 1e6)) ok = false;
      else if (!set[k]) phi[k] = x, set[k] = 1;
      else if (std::abs(wrap(phi[k] - x)) > 1e-6) ok = false;
    };
    std::set<Edge> tie;
    std::map<size_t, std::array<double, 3>> step;
    for (auto& t : F.S.T) {
      bool ok = true;
      int N = t.f.isDead() ? 0 : n[t.f];
      bool reg = b[t.f] == 0;
      put(t, 0, a[t.h[0].corner()], ok);
      if (reg)
        for (int i = 1; i < 3; i++) put(t, i, a[t.h[i].corner()], ok);
      if (!ok) {
        bad("values", cat(q, ": the faces around a vertex disagree modulo 2 pi, at face ", t.f.getIndex()));
        return;
      }
      if (!reg) continue;
      C X = root(t.h[0].vertex());
      for (int i = 0; i < 3; i++) {
        double d = a[t.h[(i + 1) % 3].corner()] + (i == 2 ? PI2 * N : 0.) - a[t.h[i].corner()];
        double w = omega(t.h[i], X);
        step[t.f.getIndex()][i] = d;
        if (std::abs(d - w) > geo::PI - 1e-5) tie.insert(t.h[i].edge());
        if (std::abs(d - w) > geo::PI + 1e-5) bad("nearest", cat(q, ": from corner ", i, " of face ", t.f.getIndex(), " the value changes by ", d, ", the target is ", w, ", index ", N));
      }
      ctx.eval(3);
      ctx.outcome(N ? "singular face" : "regular face");
    }
    for (Edge e : m.edges()) { // both sides see the same change
      if (e.isBoundary() || tie.count(e)) continue;
      Halfedge h[2] = {e.halfedge(), e.halfedge().twin()};
      double d[2];
      bool reg = true;
      for (int k = 0; k < 2; k++) {
        auto& t = F.S.tri(h[k].face());
        if (b[t.f] != 0) reg = false;
        else
          for (int i = 0; i < 3; i++)
            if (t.h[i] == h[k]) d[k] = step[t.f.getIndex()][i];
      }
      if (reg && std::abs(std::abs(d[0]) - std::abs(d[1])) > 1e-6) bad("two sides", cat(q, ": ", d[0], " and ", d[1], " along edge ", e.getIndex()));
      ctx.eval();
    }
    auto lines = [&]() {
      if (!in.vpg) return;
      for (int connect = 0; connect < 2; connect++) {
        VertexPositionGeometry fresh(m, in.vpg->vertexPositions);
        Line o = extract(fresh, a, n, b, dir, connect);
        if (tie.empty()) isolines(m, *in.vpg, a, n, b, dir, connect, o, cat(q, connect ? " connected" : ""));
      }
    };
    // the smallest eigenvector
    size_t k = 1;
    while (k < 2 * nV && l[k] < l[0] * (1 + 1e-7)) k++;
    if (k > 2 || (k < 2 * nV && l[k] < 3 * l[0])) ctx.outcome("no unique pattern");
    else {
      Mat E = es.eigenvectors().leftCols(k);
      size_t r = 0;
      double mx = 0;
      for (size_t i = 0; i < nV; i++)
        if (set[i] && E.block(2 * i, 0, 2, k).norm() > mx) mx = E.block(2 * i, 0, 2, k).norm(), r = i;
      if (mx < 1e-2 * E.cwiseAbs().maxCoeff()) { // all of it at a vertex with only singular faces
        ctx.outcome("eigenvector at a field singularity");
        return lines();
      }
      Vec z(2);
      z << std::cos(phi[r]), std::sin(phi[r]);
      Vec c = k == 2 ? Vec(E.block(2 * r, 0, 2, 2).fullPivLu().solve(z)) : Vec(E.block(2 * r, 0, 2, 1).transpose() * z);
      Vec u = E * c;
      for (size_t i = 0; i < nV; i++) {
        double x = u(2 * i), y = u(2 * i + 1), s = std::hypot(x, y);
        if (!set[i] || s < 1e-2 * u.cwiseAbs().maxCoeff()) continue;
        if (std::abs(wrap(std::atan2(y, x) - phi[i])) > 1e-3) {
          bad("eigenvector", cat(q, ": vertex ", i, " has phase ", phi[i], " not ", std::atan2(y, x), " (multiplicity ", k, ")"));
          break;
        }
      }
      ctx.outcome(k == 2 ? "pattern unique up to a shift" : "unique pattern");
      ctx.eval(nV);
    }
    lines();
  }
  void patterns(suite::In& in, size_t limit, bool T) {
    ManifoldSurfaceMesh& m = *in.mesh;
    EdgeData<double> len(m);
    for (Edge e : m.edges()) len[e] = in.M->L[e];
    Frames F(m, len);
    if (F.S.skinny < 1e-3) return;
    size_t k = T ? 4 : 3, nV = F.S.nV;
    double all = std::pow(double(k), double(nV));
    size_t count = all < limit ? size_t(all) : limit;
    if (all > limit) ctx.outcome("direction fields: every k-th");
    for (int fr = 0; fr < 3; fr++) {
      VertexData<double> freq(m);
      double per = in.M->mean;
      size_t i = 0;
      for (Vertex v : m.vertices()) freq[v] = (fr == 0 ? .2 : fr == 1 ? .9 : .5 + .2 * (i % 3)) / per, i++;
      for (size_t c = 0; c < count; c++) {
        VertexData<Vector2> dir(m);
        size_t x = c;
        if (all > limit) x = size_t(c * 2654435761u) ^ (c << 7);
        size_t i = 0;
        for (Vertex v : m.vertices()) {
          double th = .37 + PI2 * (x % k) / k + .013 * i;
          dir[v] = Vector2::fromAngle(th);
          x /= k;
          if (x == 0 && all > limit) x = (c + 1) * 40503u + 7 * i;
          i++;
        }
        pattern(in, F, dir, freq, cat("frequency ", fr, ", field ", c));
      }
      VertexData<Vector2> dir = computeSmoothestVertexDirectionField(*in.g, 2);
      bool ok = true;
      for (Vertex v : m.vertices())
        if (!(std::abs(norm(dir[v]) - 1) < 1e-6)) ok = false;
      if (ok) pattern(in, F, dir, freq, cat("frequency ", fr, ", smoothest field"));
    }
  }
  // ---- isolines of every small configuration of values
  void given(const geo::Shape& s, int maxWrap, size_t phases, size_t limit) {
    auto e = geo::manifold(s.P, s.p);
    ManifoldSurfaceMesh& m = *e.mesh;
    VertexPositionGeometry& g = *e.geom;
    VertexData<Vector2> dir(m);
    for (Vertex v : m.vertices()) dir[v] = Vector2::fromAngle(.3 + 1.1 * v.getIndex());
    std::vector<double> ph{.5, 2.3, -1.4, -2.9, 1.1};
    size_t nV = m.nVertices(), nE = m.nEdges(), W = 2 * maxWrap + 1;
    double all = std::pow(double(phases), double(nV)) * std::pow(double(W), double(nE));
    size_t stride = std::max<size_t>(1, size_t(all / limit));
    if (stride > 1) stride |= 1;
    for (size_t c = 0; c < all; c += stride) {
      size_t x = c;
      std::vector<double> t(nV);
      std::vector<int> w(nE);
      for (size_t i = 0; i < nE; i++) w[i] = int(x % W) - maxWrap, x /= W;
      for (size_t i = 0; i < nV; i++) t[i] = ph[x % phases] + .01 * i, x /= phases;
      CornerData<double> a(m);
      FaceData<int> n(m), b(m, 0);
      std::string q = cat("values ", c);
      for (Face f : m.faces()) {
        double sg = (f.getIndex() + c) % 3 == 1 ? -1 : 1; // the other sheet
        double v = t[f.halfedge().vertex().getIndex()];
        int sum = 0;
        for (Halfedge h : f.adjacentHalfedges()) {
          a[h.corner()] = sg * v;
          bool fw = h == h.edge().halfedge();
          v += t[h.next().vertex().getIndex()] - t[h.vertex().getIndex()] + PI2 * (fw ? 1 : -1) * w[h.edge().getIndex()];
          sum += (fw ? 1 : -1) * w[h.edge().getIndex()];
        }
        n[f] = int(sg) * sum;
        if (c % 5 == 4 && f.getIndex() == c % m.nFaces()) b[f] = 1;
      }
      ctx.note(q);
      for (int connect = 0; connect < 2; connect++) isolines(m, g, a, n, b, dir, connect, extract(g, a, n, b, dir, connect), q + (connect ? " connected" : ""));
    }
  }
};

int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C37";
  o.technique = "exhaustive enumeration of direction fields, frequencies and corner values on small surfaces; the real pattern and its isolines compared with an own 1-form, a dense eigenproblem and "
                "the level sets of each face";
  o.level = "bounded exhaustive exploration of the real code";
  o.caseCpuLimit = 120;
  o.rule = "every assignment of three (four) directions to the vertices of each small surface or gluing (every k-th on larger ones) for three frequency patterns; every assignment of vertex phases and "
           "edge windings on small meshes for the isolines; a state is one surface";
  o.assumptions = {"the pattern is compared with the smallest eigenvector where it is unique (up to a shift) and well separated and the energy is positive",
                   "levels through a vertex and neighboring directions which are exactly opposite or orthogonal are not judged"};
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    auto go = [&](suite::In& in, const std::string& id, size_t limit, bool holes) {
      if (!ctx.begin(id)) return;
      in.build();
      if (holes && !suite::punch(in)) return;
      Case c(ctx, id);
      c.patterns(in, limit, T);
    };
    for (auto& s : suite::triShapes(T)) {
      suite::In a = suite::from(s), j = suite::from(suite::jitter(s, .25)), h = suite::from(suite::jitter(s, .2));
      go(a, s.name, T ? 500 : 81, false);
      go(j, s.name + " moved", T ? 500 : 81, false);
      go(h, s.name + " with holes in the indices", T ? 300 : 27, true);
    }
    for (size_t nf = 1; nf <= (T ? 3u : 2u); nf++)
      suite::glued(nf, nf < 3 ? std::vector<double>{1, 1.3, .8} : std::vector<double>{1, 1.3}, true, [&](suite::In& in) { go(in, in.name, T ? 100 : 81, false); });
    geo::Shape tri{"triangle", {{0, 1, 2}}, {{0, 0, 0}, {1, .1, 0}, {.3, .9, .2}}};
    for (int w = 5; w <= (T ? 9 : 7); w++) // many levels
      if (ctx.begin(cat("values triangle ", w))) {
        Case c(ctx, cat("values triangle ", w));
        c.given(tri, w, 3, T ? 400000 : 40000);
      }
    for (auto& s : {tri, geo::planarGrid(1, 1, 1), geo::tetrahedron(), suite::fan(3, 2), suite::cone(3, .5), geo::octahedron()})
      for (int w = 1; w <= 4; w++)
        if (ctx.begin(cat("values ", s.name, " ", w))) {
          Case c(ctx, cat("values ", s.name, " ", w));
          c.given(s, w, s.P.size() < 3 ? 5 : 2, T ? 150000 : 20000);
        }
  });
}
