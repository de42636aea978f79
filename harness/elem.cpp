// C19: vector, complex, quaternion and elementary geometry operations on all small lattice inputs, against independent
// formulas. C31 (--intersect): intersection of triangles and of meshes on all lattice triangles, against clipping with
// exactly known signs.
#include "suite.h"
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/utilities/elementary_geometry.h"
#include "geometrycentral/utilities/quaternion.h"
#include "geometrycentral/utilities/utilities.h"
#include <complex>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using geometrycentral::PI;
typedef std::complex<double> C;
typedef Eigen::Matrix3d M3;

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i) : ctx(c), id(i) {}
  template <typename A>
  void eq(const char* k, double a, double b, const A& what, double tol = 1e-9) {
    ctx.transition();
    if (!(std::abs(a - b) <= tol * (1 + std::abs(b)))) bad(k, cat("of ", what(), " is ", a, " should be ", b));
  }
  template <typename A>
  void eq(const char* k, Vector2 a, C b, const A& what, double tol = 1e-9) {
    ctx.transition();
    if (!(std::abs(C(a.x, a.y) - b) <= tol * (1 + std::abs(b)))) bad(k, cat("of ", what(), " is ", a, " should be ", b));
  }
  template <typename A>
  void eq(const char* k, Vector3 a, Vector3 b, const A& what, double tol = 1e-9) {
    ctx.transition();
    Vector3 d{a.x - b.x, a.y - b.y, a.z - b.z};
    if (!(std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z) <= tol * (1 + std::abs(b.x) + std::abs(b.y) + std::abs(b.z)))) bad(k, cat("of ", what(), " is ", a, " should be ", b));
  }
};
static Vector2 v2(C c) { return Vector2{c.real(), c.imag()}; }
static C c2(Vector2 v) { return C(v.x, v.y); }
static double dt(Vector3 a, Vector3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static Vector3 cr(Vector3 a, Vector3 b) { return Vector3{a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(Vector3 a) { return std::sqrt(dt(a, a)); }

static void plane(Ctx& ctx, bool T) {
  std::vector<Vector2> P;
  int R = T ? 3 : 2;
  for (int x = -R; x <= R; x++)
    for (int y = -R; y <= R; y++) P.push_back(Vector2{(double)x, y * .5});
  std::vector<double> angles;
  for (int k = -9; k <= 9; k++) angles.push_back(k * PI / 4);
  angles.push_back(.3);
  for (size_t i = 0; i < P.size(); i++) {
    std::string id = cat("plane", P[i]);
    if (!ctx.begin(id)) continue;
    Case c(ctx, id);
    Vector2 a = P[i];
    C ca = c2(a);
    ctx.state(hashStr(id));
    auto w1 = [&] { return cat(a); };
    c.eq("norm", a.norm(), std::abs(ca), w1);
    c.eq("norm2", norm2(a), std::norm(ca), w1);
    c.eq("norm(v)", norm(a), std::abs(ca), w1);
    c.eq("conj", a.conj(), std::conj(ca), w1);
    c.eq("rotate90", a.rotate90(), ca * C(0, 1), w1);
    c.eq("sum", sum(a), a.x + a.y, w1);
    if (std::abs(ca) > 0) {
      c.eq("arg", a.arg(), std::arg(ca), w1);
      c.eq("arg(v)", arg(a), std::arg(ca), w1);
      c.eq("inv", a.inv(), 1. / ca, w1);
      c.eq("normalize", a.normalize(), ca / std::abs(ca), w1);
      c.eq("unit", unit(a), ca / std::abs(ca), w1);
      c.eq("normalizeCutoff", a.normalizeCutoff(1.2), std::abs(ca) <= 1.2 ? ca : ca / std::abs(ca), w1);
      for (double p : {2., -1., .5, 3.}) c.eq("pow", a.pow(p), std::pow(ca, p), w1);
      for (auto& q : {Vector2{.5, 1}, Vector2{2, -.3}}) c.eq("complex pow", a.pow(q), std::pow(ca, c2(q)), w1);
    } else if (!(a.normalizeCutoff() == a)) c.bad("normalizeCutoff of zero", cat(a.normalizeCutoff()));
    for (double t : angles) {
      auto w = [&] { return cat(a, " by ", t); };
      c.eq("rotateCCW", a.rotateCCW(t), ca * std::polar(1., t), w);
      c.eq("rotateCW", a.rotateCW(t), ca * std::polar(1., -t), w);
      c.eq("fromAngle", Vector2::fromAngle(t), std::polar(1., t), w);
      double r = regularizeAngle(t);
      if (!(r >= 0 && r <= 2 * PI) || std::abs(std::polar(1., r) - std::polar(1., t)) > 1e-9) c.bad("regularizeAngle", cat(t, " gives ", r));
    }
    for (auto& b : P) {
      C cb = c2(b);
      auto w = [&] { return cat(a, " ", b); };
      c.eq("+", a + b, ca + cb, w);
      c.eq("-", a - b, ca - cb, w);
      c.eq("*", a * b, ca * cb, w);
      Vector2 x = a;
      x *= b;
      c.eq("*=", x, ca * cb, w);
      if (std::abs(cb) > 0) {
        c.eq("/", a / b, ca / cb, w);
        x = a;
        x /= b;
        c.eq("/=", x, ca / cb, w);
      }
      c.eq("dot", dot(a, b), (std::conj(ca) * cb).real(), w);
      c.eq("cross", cross(a, b), (std::conj(ca) * cb).imag(), w);
      if (std::abs(ca) > 0 && std::abs(cb) > 0) {
        double o = std::arg(cb / ca), got = orientedAngle(a, b);
        if (std::abs(std::polar(1., o) - std::polar(1., got)) > 1e-7 || std::abs(got) > PI + 1e-9) c.bad("orientedAngle", cat(w(), " is ", got, " should be ", o));
        c.eq("angle", angle(a, b), std::abs(o), w, 1e-7);
      }
      Vector2 mn = componentwiseMin(a, b), mx = componentwiseMax(a, b);
      if (mn.x != std::min(a.x, b.x) || mn.y != std::min(a.y, b.y) || mx.x != std::max(a.x, b.x) || mx.y != std::max(a.y, b.y)) c.bad("componentwise min/max", w());
      if ((a == b) != (ca == cb) || (a != b) != (ca != cb)) c.bad("equality", w());
      if (a == b && std::hash<Vector2>{}(a) != std::hash<Vector2>{}(b)) c.bad("hash", w());
      // point and segment
      for (auto& q : P) {
        auto w3 = [&] { return cat(a, " to ", b, " ", q); };
        double best = std::min(std::abs(ca - cb), std::abs(ca - c2(q)));
        C d = c2(q) - cb;
        if (std::abs(d) > 0) {
          double t = ((ca - cb) * std::conj(d)).real() / std::norm(d);
          if (t > 0 && t < 1) best = std::min(best, std::abs(((ca - cb) * std::conj(d)).imag()) / std::abs(d));
        }
        c.eq("pointLineSegmentDistance 2D", pointLineSegmentDistance(a, b, q), best, w3);
        // triangle a, b, q
        double area2 = (std::conj(cb - ca) * (c2(q) - ca)).imag();
        double la = std::abs(cb - c2(q)), lb = std::abs(c2(q) - ca), lc = std::abs(ca - cb);
        c.eq("triangleArea", triangleArea(la, lb, lc), std::abs(area2) / 2, w3, 1e-6);
        if (!triangleIsValid(la, lb, lc, 1e-9)) c.bad("triangleIsValid refuses", w3());
        if (triangleIsValid(la + lb + .01, la, lb) || triangleIsValid(la, la + lb + .01, lb) || triangleIsValid(la, lb, la + lb + .01)) c.bad("triangleIsValid accepts", w3());
        if (std::abs(area2) > 1e-9) {
          Vector2 l = layoutTriangleVertex(a, b, la, lb);
          C want = area2 > 0 ? c2(q) : ca + (cb - ca) * std::conj((c2(q) - ca) / (cb - ca));
          c.eq("layoutTriangleVertex", l, want, w3, 1e-7);
          // circumcircle
          C z = (c2(q) - ca) / (cb - ca), o = ca + (cb - ca) * (z * (std::conj(z) - 1.)) / (std::conj(z) - z); // circumcenter
          double r = std::abs(o - ca);
          if (area2 > 0)
            for (auto& e : P) {
              double m = std::abs(c2(e) - o) - r;
              if (std::abs(m) > 1e-9 && inCircleTest(a, b, q, e) != (m < 0)) c.bad("inCircleTest", cat(w3(), " ", e));
              ctx.transition();
            }
        }
      }
    }
    // rays and segments: a + t d against p + s (q - p)
    for (size_t k = 0; k < P.size(); k++)
      for (size_t l = 0; l < P.size(); l += (T ? 1 : 2))
        for (size_t m = 0; m < P.size(); m += (T ? 1 : 3)) {
          C d = c2(P[k]), p = c2(P[l]), q = c2(P[m]);
          double den = (std::conj(d) * (q - p)).imag();
          if (std::abs(den) < 1e-9) continue;
          double s = (std::conj(d) * (ca - p)).imag() / den, t = (std::conj(q - p) * (ca - p)).imag() / den;
          // a + t d = p + s (q-p):  t = cross(q-p, a-p) / cross(d, q-p)
          auto w = [&] { return cat(a, " ", P[k], " ", P[l], " ", P[m]); };
          auto r = raySegmentIntersection(a, P[k], P[l], P[m]);
          c.eq("raySegment tRay", r.tRay, t, w);
          c.eq("raySegment tLine", r.tLine, s, w);
          auto rr = rayRayIntersection(a, P[k], P[l], v2(q - p));
          c.eq("rayRay tRay1", rr.tRay1, t, w);
          c.eq("rayRay tRay2", rr.tRay2, s, w);
          auto ss = segmentSegmentIntersection(a, v2(ca + d), P[l], P[m]);
          c.eq("segmentSegment tA", ss.tA, t, w);
          c.eq("segmentSegment tB", ss.tB, s, w);
          double margin = std::min(std::min(t, 1 - t), std::min(s, 1 - s));
          if (std::abs(margin) > 1e-9 && ss.hit != (margin > 0)) c.bad("segmentSegment hit", w());
        }
    ctx.eval();
    ctx.outcome("plane");
  }
}
static M3 rodrigues(Vector3 u, double t) {
  M3 K;
  K << 0, -u.z, u.y, u.z, 0, -u.x, -u.y, u.x, 0;
  return M3::Identity() + std::sin(t) * K + (1 - std::cos(t)) * K * K;
}
static void space(Ctx& ctx, bool T) {
  std::vector<Vector3> P;
  for (int x = -1; x <= 1; x++)
    for (int y = -1; y <= 1; y++)
      for (int z = -1; z <= 1; z++) P.push_back(Vector3{(double)x, 1.5 * y, z * .7});
  P.push_back({1, 1e-3, 0});
  P.push_back({1e-5, -2e-5, 3e-5});
  P.push_back({0, 0, -1});
  P.push_back({3, -2, .25});
  for (auto& a : P) {
    std::string id = cat("space", a);
    if (!ctx.begin(id)) continue;
    Case c(ctx, id);
    ctx.state(hashStr(id));
    double la = len(a);
    auto w1 = [&] { return cat(a); };
    c.eq("norm", a.norm(), la, w1);
    c.eq("norm2", norm2(a), la * la, w1);
    c.eq("sum", sum(a), a.x + a.y + a.z, w1);
    if (la > 0) {
      c.eq("normalize", a.normalize(), Vector3{a.x / la, a.y / la, a.z / la}, w1);
      c.eq("normalizeCutoff", a.normalizeCutoff(1.2), la <= 1.2 ? a : Vector3{a.x / la, a.y / la, a.z / la}, w1);
      auto B = a.buildTangentBasis();
      if (std::abs(len(B[0]) - 1) > 1e-9 || std::abs(len(B[1]) - 1) > 1e-9 || std::abs(dt(B[0], B[1])) > 1e-9 || std::abs(dt(B[0], a)) > 1e-9 * (1 + la) || std::abs(dt(cr(B[0], B[1]), a) - la) > 1e-9 * (1 + la)) c.bad("buildTangentBasis", w1());
    } else if (!(a.normalizeCutoff() == a)) c.bad("normalizeCutoff of zero", "");
    for (auto& b : P) {
      double lb = len(b);
      auto w = [&] { return cat(a, " ", b); };
      c.eq("cross", cross(a, b), cr(a, b), w);
      c.eq("dot", dot(a, b), dt(a, b), w);
      c.eq("+", a + b, Vector3{a.x + b.x, a.y + b.y, a.z + b.z}, w);
      c.eq("-", a - b, Vector3{a.x - b.x, a.y - b.y, a.z - b.z}, w);
      Vector3 x = a;
      x /= 4;
      c.eq("/=", x, a / 4, w);
      c.eq("/", a / 4, Vector3{a.x / 4, a.y / 4, a.z / 4}, w);
      x = a;
      x -= b;
      c.eq("-=", x, a - b, w);
      x = a;
      x += b;
      c.eq("+=", x, a + b, w);
      if (a == b && std::hash<Vector3>{}(a) != std::hash<Vector3>{}(b)) c.bad("hash", w());
      Vector3 mn = componentwiseMin(a, b), mx = componentwiseMax(a, b), cl = clamp(P[3], mn, mx);
      for (int i = 0; i < 3; i++)
        if (mn[i] != std::min(a[i], b[i]) || mx[i] != std::max(a[i], b[i]) || cl[i] != std::max(mn[i], std::min(mx[i], P[3][i]))) c.bad("componentwise min/max/clamp", w());
      if (lb == 0) continue;
      Vector3 u{b.x / lb, b.y / lb, b.z / lb};
      c.eq("removeComponent", a.removeComponent(u), a - u * dt(a, u), w);
      for (double t : {0., .4, 2., 3.2, -1.1, 7.}) {
        M3 R = rodrigues(u, t);
        Eigen::Vector3d r = R * Eigen::Vector3d(a.x, a.y, a.z);
        auto wt = [&] { return cat(a, " around ", b, " by ", t); };
        c.eq("rotateAround", a.rotateAround(b, t), Vector3{r(0), r(1), r(2)}, wt);
        if (la > 0 && len(cr(a, b)) > 1e-6 * la * lb) {
          // the angle in the plane orthogonal to b between a and its rotation (plus something along b)
          double g = angleInPlane(a, Vector3{r(0), r(1), r(2)} + .3 * b, b);
          if (std::abs(std::polar(1., g) - std::polar(1., t)) > 1e-7) c.bad("angleInPlane", cat(wt(), " is ", g));
        }
      }
      if (la > 0) c.eq("angle", angle(a, b), std::atan2(len(cr(a, b)), dt(a, b)), w, 1e-7);
      // point and segment
      for (auto& q : P) {
        auto w3 = [&] { return cat(a, " to ", b, " ", q); };
        Vector3 d = q - b, e = a - b;
        double best = std::min(len(a - b), len(a - q)), tb = len(a - b) <= len(a - q) ? 0 : 1;
        if (len(d) > 0) {
          double t = dt(e, d) / dt(d, d);
          if (t > 0 && t < 1) {
            best = len(e - t * d);
            tb = t;
          }
          c.eq("pointLineSegmentNeaestLocation", pointLineSegmentNeaestLocation(a, b, q), tb, w3, 1e-6);
        }
        c.eq("pointLineSegmentDistance 3D", pointLineSegmentDistance(a, b, q), best, w3, 1e-8);
        // fourth corner of a tetrahedron
        Vector3 n = cr(b - a, q - a);
        if (len(n) < 1e-3) continue;
        for (auto& p : P) {
          double side = dt(p - a, n);
          if (std::abs(side) < 1e-3) continue;
          Vector3 want = side < 0 ? p : p - 2 * side / dt(n, n) * n; // on the side from which a, b, c turn counterclockwise as seen from below
          auto w4 = [&] { return cat(a, " ", b, " ", q, " ", p); };
          c.eq("tetFourthPoint", tetFourthPoint(a, b, q, len(p - a), len(p - b), len(p - q)), want, w4, 1e-5);
          if (!T) break;
        }
      }
    }
    ctx.eval();
    ctx.outcome("space");
  }
}
static void quaternions(Ctx& ctx) {
  std::vector<std::array<double, 4>> Q;
  for (int a = -1; a <= 1; a++)
    for (int b = -1; b <= 1; b++)
      for (int cc = -1; cc <= 1; cc++)
        for (int d = -1; d <= 1; d++) Q.push_back({a * 1., b * .5, cc * 2., d * 1.25});
  for (auto& p : Q) {
    std::string id = cat("quaternion", p[0], ",", p[1], ",", p[2], ",", p[3]);
    if (!ctx.begin(id)) continue;
    Case c(ctx, id);
    ctx.state(hashStr(id));
    Quaternion a(p[0], p[1], p[2], p[3]);
    // 2x2 complex matrices
    typedef Eigen::Matrix2cd M2;
    auto mat = [](const Quaternion& q) {
      M2 m;
      m << C(q.re(), q.im().x), C(q.im().y, q.im().z), C(-q.im().y, q.im().z), C(q.re(), -q.im().x);
      return m;
    };
    auto same = [&](const char* k, const Quaternion& q, const M2& m) {
      ctx.transition();
      if (!((mat(q) - m).norm() <= 1e-9 * (1 + m.norm()))) c.bad(k, cat(q));
    };
    for (int i = 0; i < 4; i++)
      if (a[i] != p[i]) c.bad("component", cat(i));
    M2 A = mat(a);
    same("bar", a.bar(), A.adjoint());
    same("negation", -a, -A);
    same("scalar", 3. * a, 3. * A);
    same("scalar right", a * 3., 3. * A);
    same("scalar division", a / 4., A / 4.);
    double n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3];
    if (!close(a.norm2(), n2, 1e-12) || !close(a.norm(), std::sqrt(n2), 1e-12)) c.bad("norm", cat(a));
    if (n2 > 0) {
      same("inverse", a.inv(), A.inverse());
      same("unit", a.unit(), A / std::sqrt(n2));
      Quaternion u = a;
      u.normalize();
      same("normalize", u, A / std::sqrt(n2));
    }
    for (auto& q : Q) {
      Quaternion b(q[0], Vector3{q[1], q[2], q[3]});
      M2 B = mat(b);
      same("product", a * b, A * B);
      Quaternion x = a;
      x *= b;
      same("product assignment", x, A * B);
      same("sum", a + b, A + B);
      same("difference", a - b, A - B);
      x = a;
      x += b;
      same("sum assignment", x, A + B);
      x -= b;
      same("difference assignment", x, A);
      double m[4][4];
      a.toMatrix(m);
      Quaternion ab = a * b;
      for (int i = 0; i < 4; i++) {
        double s = 0;
        for (int j = 0; j < 4; j++) s += m[i][j] * q[j];
        if (!close(s, ab[i], 1e-9)) c.bad("matrix", cat(a, " ", b));
      }
    }
    ctx.eval();
    ctx.outcome("quaternion");
  }
}
static void lists(Ctx& ctx) {
  // permutations of up to 4 of 5 entries, with skipped ones
  if (!ctx.begin("lists")) return;
  Case c(ctx, "lists");
  std::vector<int> src{10, 11, 12, 13, 14};
  std::vector<size_t> p;
  std::function<void()> rec = [&]() {
    auto r = applyPermutation(src, p);
    ctx.transition();
    if (r.size() != p.size()) c.bad("applyPermutation size", "");
    for (size_t i = 0; i < p.size(); i++)
      if (r[i] != (p[i] == INVALID_IND ? 0 : src[p[i]])) c.bad("applyPermutation", cat(i));
    if (p.size() == 4) return;
    for (size_t k = 0; k < 6; k++) {
      size_t x = k == 5 ? INVALID_IND : k;
      if (k < 5 && std::find(p.begin(), p.end(), x) != p.end()) continue;
      p.push_back(x);
      rec();
      p.pop_back();
    }
  };
  rec();
  std::vector<int> v;
  std::function<void()> rem = [&]() {
    for (int o = 0; o < 3; o++) {
      auto w = v, want = std::vector<int>();
      removeFromVector(w, o);
      for (int x : v)
        if (x != o) want.push_back(x);
      if (w != want) c.bad("removeFromVector", cat(o));
      ctx.transition();
    }
    if (v.size() == 5) return;
    for (int x = 0; x < 3; x++) {
      v.push_back(x);
      rem();
      v.pop_back();
    }
  };
  rem();
  for (int a = -2; a <= 2; a++)
    for (int b = -2; b <= 2; b++)
      for (int x = -3; x <= 3; x++)
        if (a <= b && clamp(x, a, b) != std::max(a, std::min(b, x))) c.bad("clamp", cat(x));
  ctx.state(1);
  ctx.outcome("lists");
}

// ------------------------------------------------------------------------------------------------ intersections
typedef std::array<Vector3, 3> Tr;
struct Want {
  int hit = 0;           // 1 intersects, -1 does not, 0 only touches (not judged)
  bool coplanar = false; // the same plane
  Vector3 a, b;          // segment, if not coplanar
};
static Vector3 normalOf(const Tr& t) { return cr(t[1] - t[0], t[2] - t[0]); }
// coordinates are small integers, so that the signs are exact
static Want meet(const Tr& s, const Tr& t) {
  Want w;
  Vector3 n = normalOf(s), m = normalOf(t);
  double d[3];
  int pos = 0, neg = 0;
  for (int i = 0; i < 3; i++) {
    d[i] = dt(n, t[i] - s[0]);
    if (d[i] > 0) pos++;
    if (d[i] < 0) neg++;
  }
  if (!pos && !neg) {
    w.coplanar = true;
    // clip t by s
    std::vector<Vector3> poly(t.begin(), t.end());
    double worst = 1e9;
    // separating lines: every edge of both
    for (int k = 0; k < 2; k++) {
      const Tr &x = k ? t : s, &y = k ? s : t;
      Vector3 nx = k ? m : n;
      for (int i = 0; i < 3; i++) {
        Vector3 in = cr(nx, x[(i + 1) % 3] - x[i]);
        double far = -1e9;
        for (int j = 0; j < 3; j++) far = std::max(far, dt(in, y[j] - x[i]));
        worst = std::min(worst, far);
      }
    }
    w.hit = worst > 0 ? 1 : worst < 0 ? -1 : 0;
    return w;
  }
  if (pos == 3 || neg == 3) {
    w.hit = -1;
    return w;
  }
  // t meets the plane of s in a segment (or point)
  std::vector<Vector3> pts;
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3;
    if (d[i] == 0) pts.push_back(t[i]);
    if ((d[i] > 0 && d[j] < 0) || (d[i] < 0 && d[j] > 0)) pts.push_back(t[i] + d[i] / (d[i] - d[j]) * (t[j] - t[i]));
  }
  Vector3 A = pts[0], B = pts.back();
  double lo = 0, hi = 1, outside = 0; // clip by s
  bool point = pts.size() == 1;
  double worst = 1e9; // smallest over the sides of the largest depth inside
  for (int i = 0; i < 3; i++) {
    Vector3 in = cr(n, s[(i + 1) % 3] - s[i]);
    double x = dt(in, A - s[i]), y = dt(in, B - s[i]);
    if (std::fabs(x) < 1e-9) x = 0; // the crossings are rounded
    if (std::fabs(y) < 1e-9) y = 0;
    worst = std::min(worst, std::max(x, y));
    if (x < 0 && y < 0) outside = std::max(outside, -std::max(x, y));
    if (x < 0 && y > x) lo = std::max(lo, x / (x - y));
    if (y < 0 && x > y) hi = std::min(hi, x / (x - y));
  }
  if (outside > 1e-9 || lo > hi + 1e-9) w.hit = -1;
  else if (!point && worst > 1e-9 && hi > lo + 1e-9) w.hit = 1;
  w.a = A + lo * (B - A);
  w.b = A + hi * (B - A);
  return w;
}
static std::string show(const Tr& t) { return cat("(", t[0], t[1], t[2], ")"); }
static bool sameSegment(Vector3 a, Vector3 b, Vector3 c, Vector3 d, double tol = 1e-9) {
  return (len(a - c) < tol && len(b - d) < tol) || (len(a - d) < tol && len(b - c) < tol);
}
static void triTri(Case& c, const Tr& s, const Tr& t) {
  Want w = meet(s, t);
  c.ctx.transition();
  auto r = triTriIntersection(s[0], s[1], s[2], t[0], t[1], t[2]);
  c.ctx.outcome(cat(w.hit == 1 ? "intersecting" : w.hit == 0 ? "touching" : "disjoint", w.coplanar ? ", coplanar" : ""));
  if (w.hit && r.intersect != (w.hit == 1)) {
    c.bad(w.coplanar ? "coplanar triangles" : "triangles", cat(show(s), " ", show(t), r.intersect ? " are said to intersect" : " are said not to intersect"));
    return;
  }
  if (r.intersect && r.coplanar != w.coplanar) c.bad("coplanar flag", cat(show(s), " ", show(t), " is ", r.coplanar));
  if (w.hit == 1 && !w.coplanar && !sameSegment(r.xA, r.xB, w.a, w.b)) c.bad("segment", cat(show(s), " ", show(t), " is ", r.xA, " - ", r.xB, " should be ", w.a, " - ", w.b));
  if (w.hit == -1 && !w.coplanar && r.coplanar) c.bad("coplanar flag of disjoint triangles", cat(show(s), " ", show(t)));
}
struct Soup {
  gen::Polys P;
  geo::Pts p;
};
static void meshes(Case& c, const Soup& x, const Soup& y, bool self) {
  auto a = geo::general(x.P, x.p), b = geo::general(y.P, y.p);
  a.geom->requireVertexPositions();
  b.geom->requireVertexPositions();
  c.ctx.transition();
  SurfaceIntersectionResult r = self ? selfIntersections(*a.geom) : intersections(*a.geom, *b.geom);
  std::vector<Want> must;
  bool any = false, may = false;
  std::vector<Want> all;
  for (size_t f = 0; f < x.P.size(); f++)
    for (size_t g = 0; g < (self ? f : y.P.size()); g++) {
      if (self) {
        bool share = false;
        for (size_t i : x.P[f])
          for (size_t j : x.P[g]) share |= i == j;
        if (share) continue;
      }
      const Soup& z = self ? x : y;
      Tr s{x.p[x.P[f][0]], x.p[x.P[f][1]], x.p[x.P[f][2]]}, t{z.p[z.P[g][0]], z.p[z.P[g][1]], z.p[z.P[g][2]]};
      Want w = meet(s, t);
      any |= w.hit == 1;
      may |= w.hit >= 0;
      if (w.hit == 1 && !w.coplanar) must.push_back(w);
      if (w.hit == 0) all.push_back(w);
    }
  if (any && !r.hasIntersections) c.bad("hasIntersections", "is false");
  if (!may && r.hasIntersections) c.bad("hasIntersections", "is true");
  std::vector<char> used(r.edges.size(), 0);
  for (auto& e : r.edges)
    if (e[0] >= r.points.size() || e[1] >= r.points.size()) {
      c.bad("segment indices", "out of range");
      return;
    }
  for (auto& w : must) {
    bool found = false;
    for (size_t i = 0; i < r.edges.size() && !found; i++)
      if (!used[i] && sameSegment(r.points[r.edges[i][0]], r.points[r.edges[i][1]], w.a, w.b)) found = used[i] = 1;
    if (!found) {
      c.bad("missing segment", cat(w.a, " - ", w.b));
      return;
    }
  }
  for (size_t i = 0; i < r.edges.size(); i++)
    if (!used[i]) { // it must come from a pair which only touches
      bool found = false;
      for (auto& w : all)
        if (!w.coplanar) found |= sameSegment(r.points[r.edges[i][0]], r.points[r.edges[i][1]], w.a, w.b, 1e-6) || len(r.points[r.edges[i][0]] - w.a) < 1e-6;
      if (!found) c.bad("segment which is not an intersection", cat(r.points[r.edges[i][0]], " - ", r.points[r.edges[i][1]]));
    }
  c.ctx.outcome(self ? "self intersections" : "two meshes");
  c.ctx.eval();
}
static void intersect(Ctx& ctx, bool T) {
  std::vector<Tr> S{{Vector3{0, 0, 0}, Vector3{2, 0, 0}, Vector3{0, 2, 0}}, {Vector3{0, 0, 1}, Vector3{2, 0, 1}, Vector3{1, 2, 1}}, {Vector3{0, 0, 0}, Vector3{2, 1, 0}, Vector3{1, 0, 2}},
                    {Vector3{2, 0, 1}, Vector3{0, 2, 2}, Vector3{1, 1, 0}}, {Vector3{1, 0, 0}, Vector3{1, 2, 1}, Vector3{1, 0, 2}}, {Vector3{0, 0, 0}, Vector3{2, 2, 1}, Vector3{2, 1, 2}}};
  std::vector<Vector3> L;
  for (int x = 0; x < 3; x++)
    for (int y = 0; y < 3; y++)
      for (int z = 0; z < 3; z++) L.push_back(Vector3{(double)x, (double)y, (double)z});
  for (size_t k = 0; k < S.size(); k++)
    for (size_t i = 0; i < L.size(); i++) {
      std::string id = cat("tri", k, "-", i);
      if (!ctx.begin(id)) continue;
      Case c(ctx, id);
      ctx.state(hashStr(id));
      for (auto& q : L)
        for (auto& r : L) {
          Tr t{L[i], q, r};
          if (len(normalOf(t)) == 0) continue;
          Tr s = S[k];
          for (int rot = 0; rot < (T ? 6 : 2); rot++) {
            triTri(c, s, t);
            triTri(c, t, s);
            if (T && rot % 2) std::swap(s[0], s[1]);
            else s = Tr{s[1], s[2], s[0]};
          }
          ctx.eval();
        }
    }
  // coplanar triangles on a 4 x 4 lattice of three planes
  for (int pl = 0; pl < 3; pl++)
    for (size_t k = 0; k < 5; k++)
      for (int i = 0; i < 16; i++) {
        std::string id = cat("coplanar", pl, "-", k, "-", i);
        if (!ctx.begin(id)) continue;
        Case c(ctx, id);
        ctx.state(hashStr(id));
        auto at = [&](int n) {
          double x = n % 4, y = n / 4;
          return pl == 0 ? Vector3{x, y, 1} : pl == 1 ? Vector3{x, x + y, y} : Vector3{y, 2, x};
        };
        auto at2 = [&](double x, double y) { return pl == 0 ? Vector3{x, y, 1} : pl == 1 ? Vector3{x, x + y, y} : Vector3{y, 2, x}; };
        // (the last two lie entirely outside and around most of the lattice, and in the middle of one of its triangles)
        Tr s = k == 3   ? Tr{at2(-2, -2), at2(9, -1), at2(-1, 8)}
               : k == 4 ? Tr{at2(1.25, 1.25), at2(1.25, 1.5), at2(1.375, 1.25)}
               : k == 0 ? Tr{at(0), at(3), at(12)}
               : k == 1 ? Tr{at(5), at(7), at(14)} : Tr{at(2), at(11), at(4)};
        for (int j = 0; j < 16; j++)
          for (int l = 0; l < 16; l++) {
            Tr t{at(i), at(j), at(l)};
            if (len(normalOf(t)) == 0) continue;
            triTri(c, s, t);
            triTri(c, t, s);
          }
        ctx.eval();
      }
  // meshes: two, three or four triangles with every shift of the second
  std::vector<Soup> M;
  M.push_back({{{0, 1, 2}}, {{0, 0, 0}, {4, 0, 0}, {0, 4, 1}}});
  M.push_back({{{0, 1, 2}, {2, 1, 3}}, {{0, 0, 0}, {4, 0, 1}, {0, 4, 0}, {4, 4, 2}}});
  M.push_back({{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}, {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {1, 1, 3}}});
  M.push_back({{{0, 1, 2}, {3, 4, 5}}, {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {1, 1, -1}, {1, 1, 2}, {0, 2, 2}}});
  M.push_back({{{0, 1, 2}, {3, 4, 5}, {0, 1, 3}}, {{0, 0, 0}, {3, 0, 0}, {0, 3, 0}, {1, 1, 0}, {4, 1, 0}, {1, 4, 0}}});
  M.push_back({{{0, 1, 2}, {2, 1, 3}, {4, 5, 6}, {6, 5, 7}}, {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {4, 4, 0}, {1, 1, -1}, {3, 2, -1}, {1, 1, 3}, {3, 2, 3}}});
  for (size_t i = 0; i < M.size(); i++)
    for (size_t j = 0; j < M.size(); j++)
      for (int x = -2; x <= 2; x++) {
        std::string id = cat("meshes", i, "-", j, "-", x);
        if (!ctx.begin(id)) continue;
        Case c(ctx, id);
        ctx.state(hashStr(id));
        for (int y = -2; y <= 2; y++)
          for (int z = -2; z <= 2; z++) {
            Soup s = M[j];
            for (auto& p : s.p) p += Vector3{(double)x, (double)y, (double)z};
            meshes(c, M[i], s, false);
            Soup u = M[i]; // and both together in one mesh
            size_t n = u.p.size();
            for (auto f : s.P) {
              for (auto& v : f) v += n;
              u.P.push_back(f);
            }
            u.p.insert(u.p.end(), s.p.begin(), s.p.end());
            meshes(c, u, u, true);
          }
      }
  // only triangles are accepted
  if (ctx.begin("quads")) {
    Case c(ctx, "quads");
    auto q = geo::planarGrid(1, 1, 0), t = geo::planarGrid(1, 1, 1);
    for (int k = 0; k < 3; k++) {
      auto a = k == 1 ? geo::general(t.P, t.p) : geo::general(q.P, q.p), b = k == 0 ? geo::general(t.P, t.p) : geo::general(q.P, q.p);
      a.geom->requireVertexPositions();
      b.geom->requireVertexPositions();
      bool threw = false;
      try {
        intersections(*a.geom, *b.geom);
      } catch (std::exception&) {
        threw = true;
      }
      if (!threw) c.bad("polygons accepted", cat(k));
    }
  }
}

int main(int argc, char** argv) {
  bool inter = false;
  for (int i = 1; i < argc; i++) inter |= std::string(argv[i]) == "--intersect";
  Options o;
  o.property = inter ? "C31" : "C19";
  o.technique = inter ? "explicit enumeration of all triangles on a small lattice against fixed triangles, and of shifted meshes; clipping with exact signs as oracle" : "explicit enumeration of small lattice inputs of every operation against independent formulas";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = inter ? "an intersection missed, invented or with wrong ends" : "a result outside rounding of the definition";
  return run(argc, argv, o, [&](Ctx& ctx) {
    if (inter) intersect(ctx, ctx.thorough);
    else {
      plane(ctx, ctx.thorough);
      space(ctx, ctx.thorough);
      quaternions(ctx);
      lists(ctx);
    }
  });
}
