// Small embedded / intrinsic shapes for the numeric harnesses: connectivity families from gen.h plus exhaustive
// placements of their vertices on small integer point sets (no randomness anywhere).
#pragma once
#include "gen.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include <memory>

namespace geo {
using namespace geometrycentral;
using namespace geometrycentral::surface;
using gen::Polys;
using Pts = std::vector<Vector3>;

inline std::string str(const Pts& p) {
  std::string s = "{";
  for (auto& x : p) s += mc::cat("(", x.x, " ", x.y, " ", x.z, ")");
  return s + "}";
}

inline Pts lattice(int nx, int ny, int nz) {
  Pts r;
  for (int z = 0; z < nz; z++)
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++) r.push_back(Vector3{(double)x, (double)y, (double)z});
  return r;
}

inline Vector3 vectorArea(const std::vector<size_t>& f, const Pts& p) {
  Vector3 a{0, 0, 0};
  for (size_t i = 1; i + 1 < f.size(); i++) a += cross(p[f[i]] - p[f[0]], p[f[i + 1]] - p[f[0]]);
  return a / 2;
}
inline bool nondegenerate(const Polys& P, const Pts& p, double minArea = 1e-9) {
  for (auto& f : P) {
    if (norm(vectorArea(f, p)) < minArea) return false;
    for (size_t i = 0; i < f.size(); i++) {
      Vector3 a = p[f[i]], b = p[f[(i + 1) % f.size()]], c = p[f[(i + 2) % f.size()]];
      if (norm(cross(b - a, c - b)) < minArea) return false;
    }
  }
  return true;
}

// every assignment of alphabet points to the vertices of P with pairwise distinct points and no degenerate face.
// f(positions, index)
inline void placements(const Polys& P, const Pts& alphabet, const std::function<void(const Pts&, size_t)>& f,
                       bool distinct = true) {
  size_t n = gen::maxVert(P) + 1;
  Pts cur(n);
  std::vector<size_t> used(alphabet.size(), 0);
  size_t count = 0;
  std::vector<std::vector<size_t>> closing(n); // faces whose largest vertex is i
  for (size_t k = 0; k < P.size(); k++) closing[*std::max_element(P[k].begin(), P[k].end())].push_back(k);
  std::function<void(size_t)> rec = [&](size_t i) {
    if (i == n) {
      f(cur, count++);
      return;
    }
    for (size_t a = 0; a < alphabet.size(); a++) {
      if (distinct && used[a]) continue;
      cur[i] = alphabet[a];
      bool ok = true;
      for (size_t k : closing[i])
        if (ok) {
          auto& q = P[k];
          if (norm(vectorArea(q, cur)) < 1e-9) ok = false;
          for (size_t t = 0; ok && t < q.size(); t++)
            if (norm(cross(cur[q[(t + 1) % q.size()]] - cur[q[t]], cur[q[(t + 2) % q.size()]] - cur[q[(t + 1) % q.size()]])) < 1e-9)
              ok = false;
        }
      if (!ok) continue;
      used[a]++;
      rec(i + 1);
      used[a]--;
    }
  };
  rec(0);
}

struct Emb {
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geom;
};
inline Emb manifold(const Polys& P, const Pts& p) {
  Emb e;
  e.mesh.reset(new ManifoldSurfaceMesh(P));
  VertexData<Vector3> pos(*e.mesh);
  for (size_t i = 0; i < p.size(); i++) pos[e.mesh->vertex(i)] = p[i];
  e.geom.reset(new VertexPositionGeometry(*e.mesh, pos));
  return e;
}
struct EmbG {
  std::unique_ptr<SurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geom;
};
inline EmbG general(const Polys& P, const Pts& p) {
  EmbG e;
  e.mesh.reset(new SurfaceMesh(P));
  VertexData<Vector3> pos(*e.mesh);
  for (size_t i = 0; i < p.size(); i++) pos[e.mesh->vertex(i)] = p[i];
  e.geom.reset(new VertexPositionGeometry(*e.mesh, pos));
  return e;
}

// fixed embeddings ------------------------------------------------------------------------------------------------
struct Shape {
  std::string name;
  Polys P;
  Pts p;
};
inline Shape planarGrid(int w, int h, int style, bool bumpy = false) {
  Shape s;
  s.name = mc::cat("grid", w, "x", h, "s", style, bumpy ? "b" : "");
  s.P = gen::grid(w, h, style);
  for (int j = 0; j <= h; j++)
    for (int i = 0; i <= w; i++) s.p.push_back(Vector3{(double)i, (double)j, bumpy ? 0.25 * ((i * 7 + j * 5 + i * j * 3) % 4) : 0.});
  return s;
}
inline Shape octahedron() {
  return {"octa", gen::bipyramid(4), {{0, 0, 1}, {0, 0, -1}, {1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}}};
}
inline Shape tetrahedron() { return {"tetra", gen::tetra(), {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}}}; }
inline Shape cubeTri() {
  Shape s;
  s.name = "cubeTri";
  for (auto& q : gen::cube()) {
    s.P.push_back({q[0], q[1], q[2]});
    s.P.push_back({q[0], q[2], q[3]});
  }
  s.p = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  return s;
}
// torus from a w x h wrapped grid
inline Shape torus(int w, int h, int style, double R = 2, double r = 1) {
  Shape s;
  s.name = mc::cat("torus", w, "x", h, "s", style);
  s.P = gen::grid(w, h, style, true, true);
  for (int j = 0; j < h; j++)
    for (int i = 0; i < w; i++) {
      double u = 2 * PI * i / w, v = 2 * PI * j / h;
      s.p.push_back(Vector3{(R + r * std::cos(v)) * std::cos(u), (R + r * std::cos(v)) * std::sin(u), r * std::sin(v)});
    }
  return s;
}
// open cylinder
inline Shape cylinder(int w, int h, int style) {
  Shape s;
  s.name = mc::cat("cyl", w, "x", h, "s", style);
  s.P = gen::grid(w, h, style, true, false);
  for (int j = 0; j <= h; j++)
    for (int i = 0; i < w; i++) {
      double u = 2 * PI * i / w;
      s.p.push_back(Vector3{std::cos(u), std::sin(u), 0.7 * j});
    }
  return s;
}
inline Shape icosahedron() {
  Shape s;
  s.name = "icosa";
  double t = (1 + std::sqrt(5.)) / 2;
  s.p = {{-1, t, 0}, {1, t, 0}, {-1, -t, 0}, {1, -t, 0}, {0, -1, t}, {0, 1, t}, {0, -1, -t}, {0, 1, -t}, {t, 0, -1}, {t, 0, 1}, {-t, 0, -1}, {-t, 0, 1}};
  s.P = {{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8},
         {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}};
  return s;
}
// one round of exact midpoint subdivision of a triangle mesh (reference code, independent of the library)
inline Shape midpoint(const Shape& s) {
  Shape r;
  r.name = s.name + "+";
  r.p = s.p;
  std::map<std::pair<size_t, size_t>, size_t> m;
  auto mid = [&](size_t a, size_t b) {
    auto k = std::make_pair(std::min(a, b), std::max(a, b));
    auto it = m.find(k);
    if (it != m.end()) return it->second;
    r.p.push_back((s.p[a] + s.p[b]) / 2);
    return m[k] = r.p.size() - 1;
  };
  for (auto& f : s.P) {
    size_t a = f[0], b = f[1], c = f[2], ab = mid(a, b), bc = mid(b, c), ca = mid(c, a);
    r.P.push_back({a, ab, ca});
    r.P.push_back({ab, b, bc});
    r.P.push_back({ca, bc, c});
    r.P.push_back({ab, bc, ca});
  }
  return r;
}

// local (vertex-index-wise) variations of a shape: every way of offsetting up to k vertices by the given offsets
inline void wiggles(const Shape& s, const Pts& offs, int k, const std::function<void(const Shape&, size_t)>& f) {
  size_t count = 0;
  Shape c = s;
  std::function<void(size_t, int)> rec = [&](size_t from, int left) {
    if (nondegenerate(c.P, c.p, 1e-6)) f(c, count++);
    if (!left) return;
    for (size_t v = from; v < c.p.size(); v++)
      for (auto& o : offs) {
        Vector3 sv = c.p[v];
        c.p[v] = sv + o;
        rec(v + 1, left - 1);
        c.p[v] = sv;
      }
  };
  rec(0, k);
}

// dense helpers
template <class T>
Eigen::Matrix<T, -1, -1> dense(const Eigen::SparseMatrix<T>& m) { return Eigen::Matrix<T, -1, -1>(m); }

} // namespace geo
