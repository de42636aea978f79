// Independent reference for geodesics on intrinsic triangle meshes (possibly Delta-complexes): unfolding of paths and
// shooting of straight lines.  Uses only the mesh connectivity and edge lengths given to it.
#pragma once
#include "mc.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_point.h"
#include <array>

namespace geod {
using namespace geometrycentral;
using namespace geometrycentral::surface;

inline double wrap(double a, double period) {
  a = std::fmod(a, period);
  if (a < 0) a += period;
  return a;
}
// |a-b| on a circle
inline double circDist(double a, double b, double period) {
  double d = wrap(a - b, period);
  return std::min(d, period - d);
}

struct Metric {
  ManifoldSurfaceMesh& m;
  EdgeData<double> L;
  HalfedgeData<double> ang; // corner angle at the tail of an interior halfedge
  HalfedgeData<double> phi; // angle at the tail, counterclockwise from v.halfedge()
  VertexData<double> sum;
  FaceData<double> area;
  double total = 0, mean = 0;
  bool valid = true; // strict triangle inequality everywhere

  Metric(ManifoldSurfaceMesh& m_, const EdgeData<double>& L_) : m(m_), L(L_), ang(m_, 0.), phi(m_, 0.), sum(m_, 0.), area(m_, 0.) {
    size_t n = 0;
    for (Edge e : m.edges()) {
      mean += L[e];
      n++;
      if (!(L[e] > 0) || !std::isfinite(L[e])) valid = false;
    }
    mean /= n;
    for (Face f : m.faces()) {
      Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
      long double l[3];
      for (int i = 0; i < 3; i++) l[i] = L[h[i].edge()];
      long double sq = (l[0] + l[1] + l[2]) * (-l[0] + l[1] + l[2]) * (l[0] - l[1] + l[2]) * (l[0] + l[1] - l[2]);
      if (!(sq > 0)) valid = false;
      double A = (double)(std::sqrt(std::max(sq, (long double)0)) / 4);
      area[f] = A;
      total += A;
      for (int i = 0; i < 3; i++) {
        double u = l[i], v = l[(i + 2) % 3], o = l[(i + 1) % 3];
        ang[h[i]] = std::atan2(2 * A, (u * u + v * v - o * o) / 2);
      }
    }
    for (Vertex v : m.vertices()) {
      double a = 0;
      Halfedge f = v.halfedge(), h = f;
      size_t guard = 0;
      do {
        phi[h] = a;
        if (!h.isInterior()) break;
        a += ang[h];
        h = h.next().next().twin();
      } while (h != f && guard++ < 10000);
      sum[v] = a;
    }
  }
  bool boundary(Vertex v) const { return v.isBoundary(); }
};

struct Frame {
  Halfedge h[3];
  Vector2 q[3]; // tail positions
  Vector2 at(Vector3 b) const { return b[0] * q[0] + b[1] * q[1] + b[2] * q[2]; }
};
inline Frame layout(const Metric& M, Face f) {
  Frame F;
  F.h[0] = f.halfedge();
  F.h[1] = F.h[0].next();
  F.h[2] = F.h[1].next();
  double a = M.L[F.h[0].edge()], c = M.L[F.h[2].edge()], t = M.ang[F.h[0]];
  F.q[0] = {0, 0};
  F.q[1] = {a, 0};
  F.q[2] = c * Vector2{std::cos(t), std::sin(t)};
  return F;
}
// rigid motion so that halfedge g of the face of F has tail at p and tip at q
inline Frame place(const Metric& M, Halfedge g, Vector2 p, Vector2 q) {
  Frame F = layout(M, g.face());
  int i = F.h[0] == g ? 0 : F.h[1] == g ? 1 : 2;
  Vector2 a = F.q[i], b = F.q[(i + 1) % 3];
  Vector2 r = (q - p) / (b - a);
  r = r / norm(r);
  for (int k = 0; k < 3; k++) F.q[k] = p + (F.q[k] - a) * r;
  return F;
}
inline Frame unfold(const Metric& M, const Frame& F, int side) { return place(M, F.h[side].twin(), F.q[(side + 1) % 3], F.q[side]); }

// positions (in barycentric coordinates of F) at which p can sit in the frame's face
inline std::vector<Vector3> sites(const Frame& F, const SurfacePoint& p) {
  std::vector<Vector3> r;
  Vector3 e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (p.type == SurfacePointType::Face) {
    if (p.face == F.h[0].face()) r.push_back(p.faceCoords);
  } else if (p.type == SurfacePointType::Edge) {
    for (int i = 0; i < 3; i++)
      if (F.h[i].edge() == p.edge) {
        double t = F.h[i] == p.edge.halfedge() ? p.tEdge : 1 - p.tEdge;
        r.push_back((1 - t) * e[i] + t * e[(i + 1) % 3]);
      }
  } else
    for (int i = 0; i < 3; i++)
      if (F.h[i].vertex() == p.vertex) r.push_back(e[i]);
  return r;
}
// faces around a point (with the halfedge that identifies the occurrence)
inline std::vector<Face> facesAt(const SurfacePoint& p) {
  std::vector<Face> r;
  auto add = [&](Face f) {
    for (Face g : r)
      if (g == f) return;
    r.push_back(f);
  };
  if (p.type == SurfacePointType::Face) add(p.face);
  else if (p.type == SurfacePointType::Edge) {
    for (Halfedge h : {p.edge.halfedge(), p.edge.halfedge().twin()})
      if (h.isInterior()) add(h.face());
  } else
    for (Face f : p.vertex.adjacentFaces()) add(f);
  return r;
}

// snap coordinates below tol
inline SurfacePoint snap(const SurfacePoint& p, double tol) {
  if (p.type == SurfacePointType::Vertex) return p;
  if (p.type == SurfacePointType::Edge) {
    if (p.tEdge < tol) return SurfacePoint(p.edge.halfedge().tailVertex());
    if (p.tEdge > 1 - tol) return SurfacePoint(p.edge.halfedge().tipVertex());
    return p;
  }
  Halfedge h = p.face.halfedge();
  for (int i = 0; i < 3; i++, h = h.next()) {
    // coordinate i belongs to the tail of the i-th halfedge; the opposite side is h.next()
    if (p.faceCoords[i] < tol) {
      double a = p.faceCoords[(i + 1) % 3], b = p.faceCoords[(i + 2) % 3];
      return snap(SurfacePoint(h.next(), b / (a + b)), tol);
    }
  }
  return p;
}
// distance of two points inside a common face; inf if there is none
inline double dist(const Metric& M, const SurfacePoint& a0, const SurfacePoint& b0, double tol = 1e-6) {
  SurfacePoint a = snap(a0, tol), b = snap(b0, tol);
  double best = std::numeric_limits<double>::infinity();
  for (Face f : facesAt(a)) {
    Frame F = layout(M, f);
    for (auto& x : sites(F, a))
      for (auto& y : sites(F, b)) best = std::min(best, norm(F.at(x) - F.at(y)));
  }
  return best;
}
inline bool validPoint(const SurfacePoint& p, const SurfaceMesh* mesh, double tol = 1e-9) {
  if (p.type == SurfacePointType::Vertex) return p.vertex != Vertex() && p.vertex.getMesh() == mesh && !p.vertex.isDead();
  if (p.type == SurfacePointType::Edge) return p.edge != Edge() && p.edge.getMesh() == mesh && !p.edge.isDead() && p.tEdge >= -tol && p.tEdge <= 1 + tol;
  return p.face != Face() && p.face.getMesh() == mesh && !p.face.isDead() && !p.face.isBoundaryLoop() && p.faceCoords.x >= -tol && p.faceCoords.y >= -tol &&
         p.faceCoords.z >= -tol && std::abs(p.faceCoords.x + p.faceCoords.y + p.faceCoords.z - 1) < 1e-8;
}

// absolute direction (counterclockwise angle) at a point: vertex: from v.halfedge(), summed corner angles;
// edge: from e.halfedge(); face: from f.halfedge()
inline double period(const Metric& M, const SurfacePoint& p) { return p.type == SurfacePointType::Vertex ? M.sum[p.vertex] : 2 * PI; }
inline double dirAngle(const Metric& M, const SurfacePoint& p, const Frame& F, Vector3 site, Vector2 d) {
  if (p.type == SurfacePointType::Vertex) {
    int i = site[0] > .5 ? 0 : site[1] > .5 ? 1 : 2;
    double rel = (d / (F.q[(i + 1) % 3] - F.q[i])).arg();
    return M.phi[F.h[i]] + rel;
  }
  if (p.type == SurfacePointType::Edge) {
    int i = site[2] == 0 ? 0 : site[0] == 0 ? 1 : 2;
    for (int k = 0; k < 3; k++)
      if (F.h[k].edge() == p.edge && std::abs(site[(k + 2) % 3]) < 1e-14) i = k;
    double rel = (d / (F.q[(i + 1) % 3] - F.q[i])).arg();
    return F.h[i] == p.edge.halfedge() ? rel : rel + PI;
  }
  return (d / (F.q[1] - F.q[0])).arg();
}

// direction a at the snapped point s, as a direction at the original point o (nan if they are not comparable)
inline double reexpress(const Metric& M, const SurfacePoint& o, const SurfacePoint& s, double a) {
  if (o.type == s.type) return a;
  if (s.type != SurfacePointType::Edge) return std::nan("");
  Frame F = layout(M, o.face);
  int best = -1, n = 0;
  for (int k = 0; k < 3; k++)
    if (F.h[k].edge() == s.edge) {
      n++;
      if (best < 0 || o.faceCoords[(k + 2) % 3] < o.faceCoords[(best + 2) % 3]) best = k;
    }
  if (best < 0) return std::nan("");
  double e = (F.q[(best + 1) % 3] - F.q[best]).arg();
  if (F.h[best] != s.edge.halfedge()) e += PI;
  return a + e;
}

struct PathInfo {
  double len, a0, a1; // length; direction at the start; direction back at the end
  double dev;         // largest distance of an intermediate point from the straight segment
};

// all ways of reading P as a straight path
inline std::vector<PathInfo> analyze(const Metric& M, const std::vector<SurfacePoint>& P0, std::string* why = nullptr, double tol = 1e-5) {
  std::vector<PathInfo> res;
  std::vector<SurfacePoint> P = P0;
  for (auto& p : P) p = snap(p, 1e-6);
  std::string err = "no straight development";
  size_t budget = 20000;
  if (P.size() < 2) {
    if (why) *why = "fewer than two points";
    return res;
  }
  struct St {
    Frame F;
    Vector3 site;
  };
  std::vector<Vector2> pos(P.size());
  double scale = M.mean;
  std::function<void(size_t, const std::vector<St>&, const St&)> rec = [&](size_t i, const std::vector<St>& cur, const St& start) {
    // cur: possible frames containing P[i] at pos[i]
    for (auto& s : cur) {
      if (!budget) return;
      budget--;
      for (auto& y : sites(s.F, P[i + 1])) {
        Vector2 q = s.F.at(y);
        if (i > 0) {
          Vector2 tot = q - pos[0];
          double l = norm(tot);
          Vector2 prev = pos[i] - pos[0];
          // pos[i] must lie on the segment pos[0]..q
          double off = l > 0 ? std::abs(cross(prev, tot)) / l : norm(prev);
          if (off > tol * scale * 10 || dot(q - pos[i], tot) < -tol * scale * l) continue;
        }
        pos[i + 1] = q;
        if (i + 2 == P.size()) {
          Vector2 tot = q - pos[0];
          double l = norm(tot), dev = 0;
          for (size_t k = 1; k + 1 < P.size(); k++) {
            Vector2 x = pos[k] - pos[0];
            if (l > 0) dev = std::max(dev, std::abs(cross(x, tot)) / l);
            if (l > 0 && (dot(x, tot) < -tol * scale * l || dot(x, tot) > l * l + tol * scale * l)) dev = 1e9;
          }
          if (dev > tol * scale) {
            err = mc::cat("path is not straight (off by ", dev, ")");
            continue;
          }
          PathInfo r;
          r.len = l;
          r.dev = dev;
          r.a0 = reexpress(M, P0.front(), P.front(), dirAngle(M, P[0], start.F, start.site, tot));
          r.a1 = reexpress(M, P0.back(), P.back(), dirAngle(M, P.back(), s.F, y, -tot));
          bool dup = false;
          for (auto& x : res)
            if (std::abs(x.len - r.len) < 1e-7 && circDist(x.a0, r.a0, period(M, P[0])) < 1e-6 && circDist(x.a1, r.a1, period(M, P.back())) < 1e-6) dup = true;
          if (!dup) res.push_back(r);
          continue;
        }
        std::vector<St> nxt;
        const SurfacePoint& p = P[i + 1];
        nxt.push_back({s.F, y});
        if (p.type == SurfacePointType::Edge) {
          for (int k = 0; k < 3; k++)
            if (s.F.h[k].edge() == p.edge && std::abs(y[(k + 2) % 3]) < 1e-14 && s.F.h[k].twin().isInterior()) nxt.push_back({unfold(M, s.F, k), y});
        } else if (p.type == SurfacePointType::Vertex) {
          int c = y[0] > .5 ? 0 : y[1] > .5 ? 1 : 2;
          for (int dirn = 0; dirn < 2; dirn++) { // rotate around the vertex both ways
            Frame G = s.F;
            int k = c;
            for (int step = 0; step < 30; step++) {
              int side = dirn == 0 ? (k + 2) % 3 : k; // the sides incident to the vertex
              Halfedge tw = G.h[side].twin();
              if (!tw.isInterior()) break;
              G = unfold(M, G, side);
              // the vertex in the new frame: dirn 0 crosses the side (k+2)%3 whose tip is the vertex => tail of twin
              int j = G.h[0] == tw ? 0 : G.h[1] == tw ? 1 : 2;
              k = dirn == 0 ? j : (j + 1) % 3;
              if (tw.face() == s.F.h[0].face() && G.h[k] == s.F.h[c]) break;
              nxt.push_back({G, y});
            }
          }
        }
        rec(i + 1, nxt, start);
        pos[i + 1] = q;
      }
    }
  };
  for (Face f : facesAt(P[0])) {
    Frame F = layout(M, f);
    for (auto& x : sites(F, P[0])) {
      pos[0] = F.at(x);
      St s{F, x};
      rec(0, {s}, s);
    }
  }
  if (why) *why = err;
  return res;
}

struct Shot {
  SurfacePoint end;
  bool hitBoundary = false;
  double done = 0;
  double clearance = 1e300; // how close the line came to a vertex after its start
};
// straight line of the given length from p in absolute direction a
inline Shot shoot(const Metric& M, const SurfacePoint& p, double a, double len) {
  Shot r;
  Frame F;
  Vector2 pos, d;
  int entered = -1;
  if (p.type == SurfacePointType::Vertex) {
    Vertex v = p.vertex;
    a = M.boundary(v) ? a : wrap(a, M.sum[v]);
    Halfedge f = v.halfedge(), h = f, best = f;
    do {
      if (!h.isInterior()) break;
      best = h;
      if (a <= M.phi[h] + M.ang[h] + 1e-12) break;
      h = h.next().next().twin();
    } while (h != f);
    F = place(M, best, {0, 0}, {M.L[best.edge()], 0});
    int i = F.h[0] == best ? 0 : F.h[1] == best ? 1 : 2;
    pos = F.q[i];
    d = Vector2::fromAngle(a - M.phi[best]);
    entered = 3 + i; // only the opposite side can be crossed
  } else if (p.type == SurfacePointType::Edge) {
    a = wrap(a, 2 * PI);
    Halfedge h = p.edge.halfedge();
    double t = p.tEdge;
    if (a > PI) {
      h = h.twin();
      a -= PI;
      t = 1 - t;
    }
    if (!h.isInterior()) {
      r.end = p;
      r.hitBoundary = true;
      return r;
    }
    F = place(M, h, {0, 0}, {M.L[h.edge()], 0});
    pos = {t * M.L[h.edge()], 0};
    d = Vector2::fromAngle(a);
    entered = F.h[0] == h ? 0 : F.h[1] == h ? 1 : 2;
  } else {
    F = layout(M, p.face);
    pos = F.at(p.faceCoords);
    d = Vector2::fromAngle(a);
  }
  double left = len;
  for (int it = 0; it < 10000; it++) {
    double best = 1e300;
    int side = -1;
    for (int k = 0; k < 3; k++) {
      if (k == entered || (entered >= 3 && k != (entered - 3 + 1) % 3)) continue;
      Vector2 e = F.q[(k + 1) % 3] - F.q[k];
      double den = cross(d, e);
      if (std::abs(den) < 1e-300) continue;
      double t = cross(F.q[k] - pos, e) / den;
      if (den < 0) continue; // leaving sides only (interior is on the left of a side)
      if (t < best) {
        best = t;
        side = k;
      }
    }
    bool stop = side < 0 || best >= left;
    double run = stop ? left : std::max(best, 0.);
    if (it > 0 || p.type != SurfacePointType::Vertex || true)
      for (int k = 0; k < 3; k++) {
        if (entered >= 3 && k == entered - 3) continue;
        Vector2 x = F.q[k] - pos;
        double t = clamp(dot(x, d), 0., run);
        r.clearance = std::min(r.clearance, norm(x - t * d));
      }
    pos += run * d;
    left -= run;
    r.done += run;
    auto bary = [&]() {
      double A = cross(F.q[1] - F.q[0], F.q[2] - F.q[0]);
      Vector3 b;
      b[0] = cross(F.q[1] - pos, F.q[2] - pos) / A;
      b[1] = cross(F.q[2] - pos, F.q[0] - pos) / A;
      b[2] = 1 - b[0] - b[1];
      return b;
    };
    if (stop || !F.h[side].twin().isInterior()) {
      r.hitBoundary = !stop;
      r.end = SurfacePoint(F.h[0].face(), bary());
      return r;
    }
    Halfedge tw = F.h[side].twin();
    F = unfold(M, F, side);
    entered = F.h[0] == tw ? 0 : F.h[1] == tw ? 1 : 2;
  }
  return r;
}

// interior-angle test of the intrinsic Delaunay condition (sum of opposite angles <= pi + tol)
inline double delaunayExcess(const Metric& M, Edge e) {
  if (e.isBoundary()) return -1;
  Halfedge a = e.halfedge(), b = a.twin();
  return M.ang[a.next().next()] + M.ang[b.next().next()] - PI;
}
} // namespace geod
