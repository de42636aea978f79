// Exhaustive generators of small input shapes, and the boring reference structure ("half-edge system") they denote.
#pragma once
#include "mc.h"
#include <algorithm>
#include <array>
#include <functional>
#include <numeric>

namespace gen {
using Poly = std::vector<size_t>;
using Polys = std::vector<Poly>;
using Twin = std::pair<int, int>;                 // (face, index in face); (-1,-1) = boundary
using Twins = std::vector<std::vector<Twin>>;

// all oriented cyclic polygons with d distinct corners out of V vertices, smallest vertex first
inline Polys orientedPolys(size_t V, size_t d) {
  Polys out;
  Poly cur;
  std::function<void()> rec = [&]() {
    if (cur.size() == d) {
      out.push_back(cur);
      return;
    }
    for (size_t v = 0; v < V; v++) {
      if (!cur.empty() && v <= cur[0]) continue;
      if (std::find(cur.begin(), cur.end(), v) != cur.end()) continue;
      cur.push_back(v);
      rec();
      cur.pop_back();
    }
  };
  rec();
  return out;
}

// all multisets of size k of [0,n)
inline void multisets(size_t n, size_t k, const std::function<void(const std::vector<size_t>&)>& f) {
  std::vector<size_t> a(k, 0);
  if (!n && k) return;
  while (true) {
    f(a);
    int i = (int)k - 1;
    while (i >= 0 && a[i] == n - 1) i--;
    if (i < 0) return;
    size_t v = a[i] + 1;
    for (size_t j = i; j < k; j++) a[j] = v;
  }
}

inline size_t maxVert(const Polys& p) {
  size_t m = 0;
  for (auto& q : p)
    for (auto v : q) m = std::max(m, v);
  return m;
}
inline bool allReferenced(const Polys& p) {
  std::vector<char> u(maxVert(p) + 1, 0);
  for (auto& q : p)
    for (auto v : q) u[v] = 1;
  for (char c : u)
    if (!c) return false;
  return true;
}
inline bool noSelfEdge(const Polys& p) {
  for (auto& q : p)
    for (size_t i = 0; i < q.size(); i++)
      if (q[i] == q[(i + 1) % q.size()]) return false;
  return true;
}
inline bool connected(const Polys& p) {
  size_t n = maxVert(p) + 1;
  std::vector<size_t> par(n);
  std::iota(par.begin(), par.end(), 0);
  std::function<size_t(size_t)> fd = [&](size_t x) { return par[x] == x ? x : par[x] = fd(par[x]); };
  for (auto& q : p)
    for (auto v : q) par[fd(v)] = fd(q[0]);
  for (size_t i = 0; i < n; i++)
    if (fd(i) != fd(0)) return false;
  return true;
}
// deterministic variation of the listing: rotate every polygon by (k + position)
inline Polys rotated(const Polys& p, size_t k) {
  Polys r = p;
  for (size_t i = 0; i < r.size(); i++) std::rotate(r[i].begin(), r[i].begin() + (k + i * i) % r[i].size(), r[i].end());
  return r;
}

// ---------------------------------------------------------------------------------------------------------------
// Reference half-edge system.  Explicit, no cleverness: everything is a table.
struct HS {
  bool manifold = false;                  // manifold systems have exterior halfedges in boundary loops
  int nV = 0, nF = 0, nE = 0, nB = 0;
  std::vector<int> tail, tip, next, face; // face: >=0 face index, <0: -(1+b) boundary loop b
  std::vector<int> edge;
  std::vector<std::vector<int>> edgeHe;   // halfedges of each edge
  std::vector<int> fHe;                   // designated halfedge of each face (or -1: any)
  int nH() const { return (int)tail.size(); }
  int twin(int h) const { // manifold only
    auto& v = edgeHe[edge[h]];
    return v[0] == h ? v[1] : v[0];
  }
  bool interior(int h) const { return face[h] >= 0; }
};

// general system from a polygon list: edges are unordered vertex pairs
inline HS fromPolys(const Polys& p) {
  HS s;
  s.nV = (int)maxVert(p) + 1;
  s.nF = (int)p.size();
  std::map<std::pair<int, int>, int> em;
  for (int f = 0; f < (int)p.size(); f++) {
    int d = (int)p[f].size(), base = s.nH();
    s.fHe.push_back(base);
    for (int i = 0; i < d; i++) {
      int a = (int)p[f][i], b = (int)p[f][(i + 1) % d];
      s.tail.push_back(a);
      s.tip.push_back(b);
      s.next.push_back(base + (i + 1) % d);
      s.face.push_back(f);
      auto key = std::make_pair(std::min(a, b), std::max(a, b));
      auto it = em.find(key);
      int e;
      if (it == em.end()) {
        e = s.nE++;
        em[key] = e;
        s.edgeHe.emplace_back();
      } else
        e = it->second;
      s.edge.push_back(e);
      s.edgeHe[e].push_back(base + i);
    }
  }
  return s;
}

// Add exterior halfedges / boundary loops; interior halfedges given with explicit partner (or -1).
// Returns "" or the reason why this is not a manifold, oriented surface.
inline std::string closeManifold(HS& s, const std::vector<int>& partner) {
  int nI = s.nH();
  s.manifold = true;
  s.edge.assign(nI, -1);
  s.edgeHe.clear();
  s.nE = 0;
  std::vector<int> prev(nI);
  for (int h = 0; h < nI; h++) prev[s.next[h]] = h;
  // vertex stars: succ(h) = partner(prev(h)) has the same tail
  std::vector<int> nOut(s.nV, 0), nPaths(s.nV, 0), nCyc(s.nV, 0);
  std::vector<char> seen(nI, 0);
  for (int h = 0; h < nI; h++) nOut[s.tail[h]]++;
  for (int h = 0; h < nI; h++) {
    if (partner[h] < 0) { // start of an open fan at tail(h)
      nPaths[s.tail[h]]++;
      int c = h;
      while (true) {
        seen[c] = 1;
        int q = partner[prev[c]];
        if (q < 0) break;
        c = q;
      }
    }
  }
  for (int h = 0; h < nI; h++)
    if (!seen[h]) {
      nCyc[s.tail[h]]++;
      int c = h;
      while (!seen[c]) {
        seen[c] = 1;
        c = partner[prev[c]];
      }
    }
  for (int v = 0; v < s.nV; v++) {
    if (!nOut[v]) return "unreferenced vertex";
    if (nPaths[v] + nCyc[v] != 1) return "nonmanifold vertex";
  }
  std::vector<int> ext(nI, -1);
  for (int h = 0; h < nI; h++) {
    if (s.edge[h] >= 0) continue;
    int e = s.nE++;
    s.edgeHe.emplace_back();
    s.edge[h] = e;
    if (partner[h] >= 0) {
      s.edge[partner[h]] = e;
      s.edgeHe[e] = {h, partner[h]};
    } else {
      int x = s.nH();
      ext[h] = x;
      s.tail.push_back(s.tip[h]);
      s.tip.push_back(s.tail[h]);
      s.next.push_back(-1);
      s.face.push_back(-1);
      s.edge.push_back(e);
      s.edgeHe[e] = {h, x};
    }
  }
  std::vector<int> boundaryInto(s.nV, -1); // boundary interior halfedge ending at v
  for (int h = 0; h < nI; h++)
    if (ext[h] >= 0) boundaryInto[s.tip[h]] = h;
  for (int h = 0; h < nI; h++)
    if (ext[h] >= 0) s.next[ext[h]] = ext[boundaryInto[s.tail[h]]];
  std::vector<char> done(s.nH(), 0);
  for (int h = nI; h < s.nH(); h++) {
    if (done[h]) continue;
    int b = s.nB++;
    int c = h;
    while (!done[c]) {
      done[c] = 1;
      s.face[c] = -(1 + b);
      c = s.next[c];
    }
  }
  return "";
}

// manifold system from polygons; returns reason if not manifold
inline std::string manifoldFromPolys(const Polys& p, HS& s) {
  for (auto& q : p)
    if (q.size() < 3) return "degree<3";
  if (!noSelfEdge(p)) return "self-edge";
  s = HS();
  s.nV = (int)maxVert(p) + 1;
  s.nF = (int)p.size();
  std::map<std::pair<int, int>, int> dm;
  for (int f = 0; f < (int)p.size(); f++) {
    int d = (int)p[f].size(), base = s.nH();
    s.fHe.push_back(base);
    for (int i = 0; i < d; i++) {
      int a = (int)p[f][i], b = (int)p[f][(i + 1) % d];
      if (!dm.emplace(std::make_pair(a, b), base + i).second) return "duplicate directed edge";
      s.tail.push_back(a);
      s.tip.push_back(b);
      s.next.push_back(base + (i + 1) % d);
      s.face.push_back(f);
    }
  }
  std::vector<int> partner(s.nH(), -1);
  for (int h = 0; h < s.nH(); h++) {
    auto it = dm.find({s.tip[h], s.tail[h]});
    if (it != dm.end()) partner[h] = it->second;
  }
  return closeManifold(s, partner);
}
inline std::string manifoldFromTwins(const Polys& p, const Twins& t, HS& s) {
  s = HS();
  s.nV = (int)maxVert(p) + 1;
  s.nF = (int)p.size();
  std::vector<int> base;
  for (int f = 0; f < (int)p.size(); f++) {
    int d = (int)p[f].size();
    if (d < 3) return "degree<3";
    base.push_back(s.nH());
    s.fHe.push_back(base.back());
    for (int i = 0; i < d; i++) {
      s.tail.push_back((int)p[f][i]);
      s.tip.push_back((int)p[f][(i + 1) % d]);
      s.next.push_back(base.back() + (i + 1) % d);
      s.face.push_back(f);
    }
  }
  if (!noSelfEdge(p)) return "self-edge";
  std::vector<int> partner(s.nH(), -1);
  for (size_t f = 0; f < p.size(); f++)
    for (size_t i = 0; i < p[f].size(); i++)
      if (t[f][i].first >= 0) partner[base[f] + i] = base[t[f][i].first] + t[f][i].second;
  return closeManifold(s, partner);
}

// every orientable gluing of polygons with the given degrees: calls f(polys, twins).
// vertex labels are the classes of glued corners, numbered in order of first appearance
inline void gluings(const std::vector<int>& degs, const std::function<void(const Polys&, const Twins&)>& f) {
  std::vector<Twin> side;
  for (int i = 0; i < (int)degs.size(); i++)
    for (int j = 0; j < degs[i]; j++) side.push_back({i, j});
  int n = (int)side.size();
  std::vector<int> base(degs.size(), 0);
  for (size_t i = 1; i < degs.size(); i++) base[i] = base[i - 1] + degs[i - 1];
  std::vector<int> par(n, -2); // -2 undecided, -1 boundary
  std::function<void(int)> rec = [&](int k) {
    while (k < n && par[k] != -2) k++;
    if (k == n) {
      // corner (h) = tail of h.  glue h with g: tail(h)~tip(g)
      std::vector<int> uf(n);
      std::iota(uf.begin(), uf.end(), 0);
      std::function<int(int)> fd = [&](int x) { return uf[x] == x ? x : uf[x] = fd(uf[x]); };
      auto nxt = [&](int h) { return base[side[h].first] + (side[h].second + 1) % degs[side[h].first]; };
      for (int h = 0; h < n; h++)
        if (par[h] >= 0) {
          uf[fd(h)] = fd(nxt(par[h]));
          uf[fd(nxt(h))] = fd(par[h]);
        }
      std::map<int, size_t> lab;
      Polys p(degs.size());
      Twins t(degs.size());
      for (int h = 0; h < n; h++) {
        int r = fd(h);
        size_t l = lab.emplace(r, lab.size()).first->second;
        p[side[h].first].push_back(l);
        t[side[h].first].push_back(par[h] >= 0 ? side[par[h]] : Twin{-1, -1});
      }
      f(p, t);
      return;
    }
    par[k] = -1;
    rec(k + 1);
    for (int j = k + 1; j < n; j++)
      if (par[j] == -2) {
        par[k] = j;
        par[j] = k;
        rec(k + 1);
        par[j] = -2;
      }
    par[k] = -2;
  };
  rec(0);
}

inline std::string str(const Twins& t) {
  std::string s = "{";
  for (auto& r : t) {
    s += "(";
    for (auto& x : r) s += mc::cat(x.first, ".", x.second, " ");
    s += ")";
  }
  return s + "}";
}

// ---------------------------------------------------------------------------------------------------------------
// named families (indices only)
inline Polys openFan(size_t n) { // n triangles around vertex 0
  Polys p;
  for (size_t i = 0; i < n; i++) p.push_back({0, i + 1, i + 2});
  return p;
}
inline Polys closedFan(size_t n) {
  Polys p;
  for (size_t i = 0; i < n; i++) p.push_back({0, i + 1, (i + 1) % n + 1});
  return p;
}
inline Polys book(size_t n) { // n triangles sharing the edge 0-1
  Polys p;
  for (size_t i = 0; i < n; i++) {
    if (i % 2) p.push_back({1, 0, i + 2});
    else p.push_back({0, 1, i + 2});
  }
  return p;
}
inline Polys bipyramid(size_t n) {
  Polys p;
  for (size_t i = 0; i < n; i++) {
    size_t a = i + 2, b = (i + 1) % n + 2;
    p.push_back({0, a, b});
    p.push_back({1, b, a});
  }
  return p;
}
// w x h grid of quads, each split (style 0: quads, 1: diagonal /, 2: diagonal \, 3 alternating)
inline Polys grid(size_t w, size_t h, int style, bool wrapX = false, bool wrapY = false) {
  Polys p;
  size_t nx = wrapX ? w : w + 1;
  auto id = [&](size_t i, size_t j) { return (wrapY ? j % h : j) * nx + (wrapX ? i % w : i); };
  for (size_t j = 0; j < h; j++)
    for (size_t i = 0; i < w; i++) {
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      int st = style == 3 ? ((i + j) % 2 ? 1 : 2) : style;
      if (st == 0) p.push_back({a, b, c, d});
      else if (st == 1) {
        p.push_back({a, b, c});
        p.push_back({a, c, d});
      } else {
        p.push_back({a, b, d});
        p.push_back({b, c, d});
      }
    }
  return p;
}
inline Polys disjointUnion(const Polys& a, const Polys& b) {
  Polys r = a;
  size_t o = maxVert(a) + 1;
  for (auto q : b) {
    for (auto& v : q) v += o;
    r.push_back(q);
  }
  return r;
}
inline Polys tetra() { return {{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {2, 3, 0}}; }
inline Polys cube() { return {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}; }
inline Polys withoutFace(Polys p, size_t f) {
  p.erase(p.begin() + f);
  // compact vertex labels
  std::map<size_t, size_t> m;
  for (auto& q : p)
    for (auto v : q) m[v] = 0;
  size_t k = 0;
  for (auto& kv : m) kv.second = k++;
  for (auto& q : p)
    for (auto& v : q) v = m[v];
  return p;
}
} // namespace gen
