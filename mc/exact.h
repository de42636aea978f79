// Independent exact polyhedral distances by exhaustive unfolding of face sequences (a shortest path meets every face at
// most once), on any triangle mesh, manifold or not.
#pragma once
#include "mc.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "geometrycentral/surface/surface_point.h"
#include "geometrycentral/utilities/vector2.h"
#include "geometrycentral/utilities/vector3.h"

namespace exact {
using namespace geometrycentral;
using namespace geometrycentral::surface;

struct Exact {
  SurfaceMesh& m;
  struct Side {
    size_t e;
    bool fwd; // along the edge's own halfedge
  };
  size_t nV, nE, nF;
  std::vector<std::array<size_t, 3>> fv;
  std::vector<std::array<Side, 3>> fs;
  std::vector<std::vector<std::pair<size_t, int>>> ef; // edge -> (face, side)
  std::vector<double> L;
  double mean = 0;
  std::vector<std::vector<double>> EG, G; // all pairs of vertices, along edges / geodesic
  uint64_t windows = 0;

  Exact(SurfaceMesh& m_, const EdgeData<double>& len) : m(m_), nV(m_.nVertices()), nE(m_.nEdges()), nF(m_.nFaces()), fv(nF), fs(nF), ef(nE), L(nE) {
    for (Edge e : m.edges()) L[e.getIndex()] = len[e], mean += len[e] / nE;
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      for (int i = 0; i < 3; i++, h = h.next()) {
        fv[f.getIndex()][i] = h.vertex().getIndex();
        Edge e = h.edge();
        fs[f.getIndex()][i] = {e.getIndex(), h.orientation()};
        ef[e.getIndex()].push_back({f.getIndex(), i});
      }
    }
    EG.assign(nV, std::vector<double>(nV, inf()));
    for (size_t v = 0; v < nV; v++) EG[v][v] = 0;
    for (size_t f = 0; f < nF; f++)
      for (int i = 0; i < 3; i++) {
        size_t a = fv[f][i], b = fv[f][(i + 1) % 3];
        if (a != b) EG[a][b] = EG[b][a] = std::min(EG[a][b], L[fs[f][i].e]);
      }
    closure(EG);
    G.assign(nV, std::vector<double>(nV, inf()));
    for (size_t v = 0; v < nV; v++) {
      Reach r = reach(SurfacePoint(m.vertex(v)), {});
      for (size_t w = 0; w < nV; w++) {
        G[v][w] = std::min(G[v][w], r.v[w]);
        G[w][v] = std::min(G[w][v], r.v[w]);
      }
      G[v][v] = 0;
    }
    closure(G);
  }
  static void closure(std::vector<std::vector<double>>& g) {
    size_t n = g.size();
    for (size_t k = 0; k < n; k++)
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) g[i][j] = std::min(g[i][j], g[i][k] + g[k][j]);
  }
  static double inf() { return 1e100; }

  struct Reach {
    std::vector<double> v, q; // straight-line distances to the vertices and to the targets
  };
  // positions of p in face f (corner barycentric)
  std::vector<Vector3> sites(size_t f, const SurfacePoint& p) const {
    std::vector<Vector3> r;
    Vector3 E[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int i = 0; i < 3; i++) {
      if (p.type == SurfacePointType::Vertex && fv[f][i] == p.vertex.getIndex()) r.push_back(E[i]);
      if (p.type == SurfacePointType::Edge && fs[f][i].e == p.edge.getIndex()) {
        double t = fs[f][i].fwd ? p.tEdge : 1 - p.tEdge;
        r.push_back((1 - t) * E[i] + t * E[(i + 1) % 3]);
      }
    }
    if (p.type == SurfacePointType::Face && p.face.getIndex() == f) r.push_back(p.faceCoords);
    return r;
  }
  // third corner to the right (sgn<0) or left of a->b, at distance la from a and lb from b
  static Vector2 apex(Vector2 a, Vector2 b, double la, double lb, double sgn) {
    Vector2 d = b - a;
    double l = norm(d);
    double x = (la * la - lb * lb + l * l) / (2 * l);
    double y = std::sqrt(std::max(0., la * la - x * x));
    d = d / l;
    return a + x * d + sgn * y * Vector2{-d.y, d.x};
  }
  Reach reach(const SurfacePoint& p, const std::vector<SurfacePoint>& targets) {
    Reach r;
    r.v.assign(nV, inf());
    r.q.assign(targets.size(), inf());
    std::vector<char> used(nF, 0);
    std::vector<std::vector<std::pair<size_t, Vector3>>> at(nF);
    for (size_t k = 0; k < targets.size(); k++)
      for (size_t f = 0; f < nF; f++)
        for (auto& s : sites(f, targets[k])) at[f].push_back({k, s});
    // no shortest path is longer than the longest edge path (plus the way to and from a vertex)
    double bound = 0;
    for (size_t f = 0; f < nF; f++)
      if (!sites(f, p).empty())
        for (size_t w = 0; w < nV; w++)
          if (EG[fv[f][0]][w] < inf()) bound = std::max(bound, EG[fv[f][0]][w]);
    bound += 2 * *std::max_element(L.begin(), L.end());
    // face f with corner positions, source at the origin, visible cone between directions lo and hi (counterclockwise)
    std::function<void(size_t, std::array<Vector2, 3>, Vector2, Vector2, bool, int)> go = [&](size_t f, std::array<Vector2, 3> q, Vector2 lo, Vector2 hi, bool full, int from) {
      windows++;
      used[f] = 1;
      double eps = 1e-9 * mean;
      auto visible = [&](Vector2 x) {
        double n = norm(x);
        return full || n < eps || (cross(lo, x) >= -eps * norm(lo) && cross(x, hi) >= -eps * norm(hi) && dot(x, lo / norm(lo) + hi / norm(hi)) > -eps);
      };
      for (int i = 0; i < 3; i++)
        if (visible(q[i])) r.v[fv[f][i]] = std::min(r.v[fv[f][i]], norm(q[i]));
      for (auto& t : at[f]) {
        Vector2 x = t.second[0] * q[0] + t.second[1] * q[1] + t.second[2] * q[2];
        if (visible(x)) r.q[t.first] = std::min(r.q[t.first], norm(x));
      }
      double s = cross(q[1] - q[0], q[2] - q[0]) > 0 ? 1 : -1;
      for (int i = 0; i < 3; i++) {
        if (i == from) continue;
        Vector2 a = q[i], b = q[(i + 1) % 3];
        if (s < 0) std::swap(a, b); // now the face is on the left of a->b, and so is the source: a, b counterclockwise
        if (cross(a, b) <= 1e-12 * mean * mean) continue; // seen edge-on (the source lies on this side)
        Vector2 l2 = a, h2 = b;
        if (!full) {
          if (cross(lo, a) < 0) l2 = lo;
          if (cross(b, hi) < 0) h2 = hi;
          if (cross(l2, h2) < -1e-12 * norm(l2) * norm(h2) || cross(b, l2) > 0 || cross(h2, a) > 0) continue;
        }
        // prune far windows
        double dn = std::abs(cross(a, b)) / norm(b - a);
        if (dn > bound) continue;
        for (auto& g : ef[fs[f][i].e]) {
          if (used[g.first]) continue;
          int j = g.second;
          Vector2 A = q[i], B = q[(i + 1) % 3]; // ends of the shared edge along side i of f
          bool same = fs[g.first][j].fwd == fs[f][i].fwd;
          std::array<Vector2, 3> Q;
          Q[j] = same ? A : B;
          Q[(j + 1) % 3] = same ? B : A;
          // the new corner on the side of the edge away from f: with f on the left of a->b it goes to the right
          double la = L[fs[g.first][(j + 2) % 3].e], lb = L[fs[g.first][(j + 1) % 3].e];
          bool fromA = (Q[j] == a);
          Q[(j + 2) % 3] = fromA ? apex(Q[j], Q[(j + 1) % 3], la, lb, -1) : apex(Q[j], Q[(j + 1) % 3], la, lb, 1);
          go(g.first, Q, l2, h2, false, j);
        }
      }
      used[f] = 0;
    };
    for (size_t f = 0; f < nF; f++)
      for (auto& s : sites(f, p)) {
        std::array<Vector2, 3> q;
        q[0] = {0, 0};
        q[1] = {L[fs[f][0].e], 0};
        q[2] = apex(q[0], q[1], L[fs[f][2].e], L[fs[f][1].e], 1);
        Vector2 o = s[0] * q[0] + s[1] * q[1] + s[2] * q[2];
        for (auto& x : q) x -= o;
        go(f, q, {0, 0}, {0, 0}, true, -1);
      }
    return r;
  }
  // distance between arbitrary points
  double distance(const SurfacePoint& a, const SurfacePoint& b) {
    Reach ra = reach(a, {b}), rb = reach(b, {});
    return combine(ra, 0, rb);
  }
  double combine(const Reach& ra, size_t k, const Reach& rb) const {
    double d = ra.q[k];
    for (size_t u = 0; u < nV; u++)
      if (ra.v[u] < inf())
        for (size_t v = 0; v < nV; v++) d = std::min(d, ra.v[u] + G[u][v] + rb.v[v]);
    return d;
  }
};
} // namespace exact
