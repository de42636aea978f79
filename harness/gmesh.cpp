// C04: mutations of general (non-manifold, non-oriented) surface meshes: every operation sequence up to a depth from
// every small start mesh; after every step the mesh is compared with an explicit half-edge model.
#include "mc.h"
#include "nav.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
using namespace nav;
using namespace mc;
using gen::Poly;
using gen::Polys;

enum class K { Invert, Duplicate, Flip, FlipFree, Separate, SepEdges, SepVerts, Orient, Compress };
static const char* kname(K k) {
  static const char* n[] = {"invertOrientation", "duplicateFace", "flip", "flip(unguarded)", "separateToNewEdge", "separateNonmanifoldEdges", "separateNonmanifoldVertices", "greedilyOrientFaces", "compress"};
  return n[(int)k];
}
struct Op {
  K k;
  int a = -1, b = -1;
};
static std::string str1(const Op& o) { return o.a < 0 ? std::string(kname(o.k)) : o.b < 0 ? cat(kname(o.k), "(", o.a, ")") : cat(kname(o.k), "(", o.a, ",", o.b, ")"); }

template <class E>
struct Data {
  MeshData<E, int> d;
  MeshData<E, std::string> s;
  std::map<size_t, int> lab;
  Data(SurfaceMesh& m) : d(m, 5), s(m, "def") {
    for (E e : iterateElements<E>(&m)) d[e] = lab[e.getIndex()] = 100 + 3 * (int)e.getIndex(), s[e] = cat("l", e.getIndex());
  }
  std::string check(SurfaceMesh& m) const { // no compression happened: indices are stable
    for (E e : iterateElements<E>(&m)) {
      auto it = lab.find(e.getIndex());
      NAV_CHECK(d[e] == (it == lab.end() ? 5 : it->second), typeShortName<E>(), e.getIndex(), " holds ", d[e]);
      NAV_CHECK(s[e] == (it == lab.end() ? std::string("def") : cat("l", e.getIndex())), typeShortName<E>(), e.getIndex(), " holds ", s[e]);
    }
    NAV_CHECK(d.raw().size() == (Eigen::Index)elementCapacity<E>(&m), "size");
    return "";
  }
};
struct Attached {
  Data<Vertex> v;
  Data<Halfedge> h;
  Data<Edge> e;
  Data<Face> f;
  Data<Corner> c;
  Attached(SurfaceMesh& m) : v(m), h(m), e(m), f(m), c(m) {}
  std::string check(SurfaceMesh& m) const {
    std::string r = v.check(m);
    if (r.empty()) r = h.check(m);
    if (r.empty()) r = e.check(m);
    if (r.empty()) r = f.check(m);
    if (r.empty()) r = c.check(m);
    return r.empty() ? r : "data attached before the operation: " + r;
  }
};

struct World {
  std::unique_ptr<SurfaceMesh> m;
  HS s;
  Handles h;
};

static std::vector<int> cycle(const HS& s, int f) {
  std::vector<int> r;
  int c = s.fHe[f];
  do {
    r.push_back(c);
    c = s.next[c];
  } while (c != s.fHe[f]);
  return r;
}
static int degree(const HS& s, int f) { return (int)cycle(s, f).size(); }
static void invert(HS& s, int f) {
  auto c = cycle(s, f);
  int n = (int)c.size();
  for (int i = 0; i < n; i++) {
    s.next[c[i]] = c[(i + n - 1) % n];
    std::swap(s.tail[c[i]], s.tip[c[i]]);
  }
}
static bool sameDir(const HS& s, int a, int b) { return s.tail[a] == s.tail[b]; } // (no self-edges here)
static bool manifoldEdge(const HS& s, int e) { return s.edgeHe[e].size() <= 2; }
static bool isOriented(const HS& s) {
  for (auto& l : s.edgeHe)
    if (l.size() == 2 && sameDir(s, l[0], l[1])) return false;
  return true;
}

// flips are not constrained in direction: both results are described
static bool flipped(const HS& s, int e, bool guarded, std::vector<HS>& out, bool& skip) {
  skip = false;
  auto& l = s.edgeHe[e];
  if (l.size() != 2) return false;
  if (degree(s, s.face[l[0]]) != 3 || degree(s, s.face[l[1]]) != 3) return false;
  if (s.face[l[0]] == s.face[l[1]]) {
    // two sides of one triangle on one edge without being a self-edge: incident on a degree-1 vertex
    return false;
  }
  HS t = s;
  int a = l[0], b = l[1];
  bool inv = sameDir(s, a, b);
  if (inv) invert(t, s.face[a]);
  int a2 = t.next[a], a3 = t.next[a2], b2 = t.next[b], b3 = t.next[b2];
  int c = t.tail[a3], d = t.tail[b3];
  if (c == d) {
    if (guarded) return false;
    skip = true;
    return false;
  }
  if (guarded)
    for (int x = 0; x < s.nH(); x++)
      if ((s.tail[x] == c && s.tip[x] == d) || (s.tail[x] == d && s.tip[x] == c)) return false;
  for (int dir = 0; dir < 2; dir++) {
    HS r = t;
    int fa = t.face[a], fb = t.face[b];
    auto tri = [&](int f, int x, int y, int z) {
      r.next[x] = y;
      r.next[y] = z;
      r.next[z] = x;
      r.face[x] = r.face[y] = r.face[z] = f;
      r.fHe[f] = x;
    };
    if (dir == 0) { // a: c -> d
      tri(fa, a, b3, a2);
      tri(fb, b, a3, b2);
      r.tail[a] = r.tip[b] = c;
      r.tip[a] = r.tail[b] = d;
    } else {
      tri(fa, a, a3, b2);
      tri(fb, b, b3, a2);
      r.tail[a] = r.tip[b] = d;
      r.tip[a] = r.tail[b] = c;
    }
    if (inv) invert(r, s.face[a]);
    out.push_back(r);
  }
  return true;
}

static std::vector<Op> ops(const World& w, bool light) {
  const HS& s = w.s;
  std::vector<Op> r;
  for (int f = 0; f < s.nF; f++) {
    r.push_back({K::Invert, f});
    r.push_back({K::Duplicate, f});
  }
  for (int e = 0; e < s.nE; e++) {
    r.push_back({K::Flip, e});
    r.push_back({K::FlipFree, e});
    auto& l = s.edgeHe[e];
    for (int x : l)
      for (int y : l) {
        if (light && l.size() > 4 && x > y) continue;
        r.push_back({K::Separate, x, y});
      }
  }
  if (s.nE > 1) r.push_back({K::Separate, s.edgeHe[0][0], s.edgeHe[1][0]});
  r.push_back({K::SepEdges});
  r.push_back({K::SepVerts});
  r.push_back({K::Orient});
  r.push_back({K::Compress});
  return r;
}

// after an operation that may renumber sides' edges arbitrarily: read the partition of the sides from the mesh
static void regroup(World& w, const std::vector<Edge>& of) {
  std::map<size_t, int> id;
  for (int e = 0; e < (int)w.h.E.size(); e++) id[w.h.E[e].getIndex()] = e;
  w.s.edgeHe.assign(w.h.E.size(), {});
  for (int x = 0; x < w.s.nH(); x++) {
    auto it = id.find(of[x].getIndex());
    int e;
    if (it == id.end()) {
      e = (int)w.h.E.size();
      w.h.E.push_back(of[x]);
      w.s.edgeHe.emplace_back();
      id[of[x].getIndex()] = e;
    } else
      e = it->second;
    w.s.edge[x] = e;
    w.s.edgeHe[e].push_back(x);
  }
  w.s.nE = (int)w.h.E.size();
}

static std::string verify(World& w) {
  std::string r = checkNav(*w.m, w.s, w.h);
  if (!r.empty()) return r;
  try {
    w.m->validateConnectivity();
  } catch (const std::exception& e) {
    return cat("validateConnectivity: ", e.what());
  }
  return "";
}

template <class F>
static bool throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// perform on mesh and model; "" or the discrepancy. 'changed' tells whether the model moved
static std::string apply(World& w, const Op& o, std::string& out) {
  SurfaceMesh& m = *w.m;
  HS& s = w.s;
  Handles& h = w.h;
  out = "done";
  Attached data(m);
  size_t tick0 = 0;
  (void)tick0;
  std::string r;
  switch (o.k) {
  case K::Invert:
    m.invertOrientation(h.F[o.a]);
    invert(s, o.a);
    break;
  case K::Duplicate: {
    Face nf = m.duplicateFace(h.F[o.a]);
    for (Face f : h.F) NAV_CHECK(f != nf, "duplicateFace returned an existing face");
    auto c = cycle(s, o.a);
    int n = (int)c.size(), base = s.nH();
    // sides of the new face, matched to the sides of the old one (any rotation)
    std::vector<Halfedge> hs;
    Halfedge x = nf.halfedge();
    for (int i = 0; i <= n; i++) {
      if (i && x == nf.halfedge()) break;
      hs.push_back(x);
      x = x.next();
    }
    NAV_CHECK((int)hs.size() == n, "the duplicate has ", hs.size(), " sides or more, the face ", n);
    for (auto a : hs)
      for (auto b : h.H) NAV_CHECK(a != b, "the duplicate uses an existing halfedge");
    int rot = -1;
    for (int k = 0; k < n && rot < 0; k++) {
      bool ok = true;
      for (int i = 0; i < n && ok; i++) ok = hs[i].edge() == h.E[s.edge[c[(i + k) % n]]] && hs[i].vertex() == h.V[s.tail[c[(i + k) % n]]];
      if (ok) rot = k;
    }
    NAV_CHECK(rot >= 0, "the duplicate is not on the edges and vertices of the face, in the same orientation");
    for (int i = 0; i < n; i++) {
      int q = c[(i + rot) % n];
      s.tail.push_back(s.tail[q]);
      s.tip.push_back(s.tip[q]);
      s.next.push_back(base + (i + 1) % n);
      s.face.push_back(s.nF);
      s.edge.push_back(s.edge[q]);
      s.edgeHe[s.edge[q]].push_back(base + i);
      h.H.push_back(hs[i]);
    }
    s.fHe.push_back(base);
    s.nF++;
    h.F.push_back(nf);
    break;
  }
  case K::Flip:
  case K::FlipFree: {
    std::vector<HS> res;
    bool skip;
    bool can = flipped(s, o.a, o.k == K::Flip, res, skip);
    if (skip) {
      out = "skip";
      return "";
    }
    bool did = m.flip(h.E[o.a], o.k == K::Flip);
    NAV_CHECK(did == can, "flip returned ", did, " but ", can ? "the edge can be flipped" : "the edge must not be flipped");
    out = can ? "flipped" : "refused";
    if (!can) break;
    std::string e0;
    bool ok = false;
    for (auto& t : res) {
      HS keep = s;
      s = t;
      std::string e = verify(w);
      if (e.empty()) {
        ok = true;
        break;
      }
      if (e0.empty()) e0 = e;
      s = keep;
    }
    if (!ok) return e0;
    break;
  }
  case K::Separate: {
    Edge e = h.E[s.edge[o.a]], ne;
    bool bad = o.a == o.b || s.edge[o.a] != s.edge[o.b];
    bool threw = throws([&] { ne = m.separateToNewEdge(h.H[o.a], h.H[o.b]); });
    NAV_CHECK(threw == bad, "separateToNewEdge ", threw ? "threw" : "did not throw");
    out = bad ? "refused" : "done";
    if (bad) break;
    if (s.edgeHe[s.edge[o.a]].size() == 2) {
      NAV_CHECK(ne == e, "nothing to separate, but another edge was returned");
      out = "nothing to do";
      break;
    }
    for (Edge x : h.E) NAV_CHECK(x != ne, "separateToNewEdge returned an existing edge");
    auto& l = s.edgeHe[s.edge[o.a]];
    l.erase(std::remove_if(l.begin(), l.end(), [&](int x) { return x == o.a || x == o.b; }), l.end());
    s.edge[o.a] = s.edge[o.b] = s.nE++;
    s.edgeHe.push_back({o.a, o.b});
    h.E.push_back(ne);
    break;
  }
  case K::SepEdges: {
    m.separateNonmanifoldEdges();
    HS old = s;
    std::vector<Edge> of;
    for (auto x : h.H) of.push_back(x.edge());
    regroup(w, of);
    std::map<int, int> parts;
    for (int e = 0; e < s.nE; e++) {
      NAV_CHECK(!s.edgeHe[e].empty(), "edge ", e, " lost all its faces");
      NAV_CHECK(s.edgeHe[e].size() <= 2, "an edge with ", s.edgeHe[e].size(), " faces is left");
      int from = old.edge[s.edgeHe[e][0]];
      for (int x : s.edgeHe[e]) NAV_CHECK(old.edge[x] == from, "sides of different edges were joined");
      if (e < old.nE) NAV_CHECK(from == e, "edges were exchanged");
      parts[from]++;
    }
    for (int e = 0; e < old.nE; e++) {
      int d = (int)old.edgeHe[e].size();
      NAV_CHECK(parts[e] == std::max(1, (d + 1) / 2), "edge with ", d, " faces became ", parts[e], " edges");
    }
    NAV_CHECK(m.isEdgeManifold(), "");
    break;
  }
  case K::SepVerts: {
    bool em = true;
    for (auto& l : s.edgeHe) em = em && l.size() <= 2;
    VertexData<Vertex> par;
    bool threw = throws([&] { par = m.separateNonmanifoldVertices(); });
    NAV_CHECK(threw == !em, "separateNonmanifoldVertices ", threw ? "threw" : "accepted a mesh that is not edge-manifold");
    out = em ? "done" : "refused";
    if (!em) break;
    // components of corners (corner = tail of a side)
    int n = s.nH();
    std::vector<int> comp(n);
    std::iota(comp.begin(), comp.end(), 0);
    auto join = [&](int a, int b) {
      int x = comp[a], y = comp[b];
      if (x != y)
        for (auto& c : comp)
          if (c == y) c = x;
    };
    for (auto& l : s.edgeHe) {
      if (l.size() != 2) continue;
      int a = l[0], b = l[1];
      if (sameDir(s, a, b)) {
        join(a, b);
        join(s.next[a], s.next[b]);
      } else {
        join(a, s.next[b]);
        join(s.next[a], b);
      }
    }
    HS old = s;
    std::map<size_t, int> id;
    for (int v = 0; v < s.nV; v++) id[h.V[v].getIndex()] = v;
    std::map<int, int> of; // component -> vertex
    for (int x = 0; x < n; x++) {
      Vertex v = h.H[x].vertex();
      auto it = id.find(v.getIndex());
      int k;
      if (it == id.end()) {
        k = s.nV++;
        id[v.getIndex()] = k;
        h.V.push_back(v);
      } else
        k = it->second;
      auto c = of.find(comp[x]);
      if (c == of.end()) {
        for (auto& q : of) NAV_CHECK(q.second != k, "two edge-connected components share a vertex");
        of[comp[x]] = k;
      } else
        NAV_CHECK(c->second == k, "an edge-connected component was torn apart");
      s.tail[x] = k;
      NAV_CHECK(par[v] == h.V[old.tail[x]], "parent of vertex ", k);
      if (k < old.nV) NAV_CHECK(k == old.tail[x], "vertices were exchanged");
    }
    for (int x = 0; x < n; x++) s.tip[x] = s.tail[s.next[x]];
    std::vector<bool> used(s.nV, false);
    for (int x = 0; x < n; x++) used[s.tail[x]] = true;
    for (int v = 0; v < s.nV; v++) NAV_CHECK(used[v], "vertex ", v, " is not used any more");
    break;
  }
  case K::Orient: {
    m.greedilyOrientFaces();
    for (int f = 0; f < s.nF; f++)
      if (h.H[s.fHe[f]].vertex() != h.V[s.tail[s.fHe[f]]]) {
        invert(s, f);
        out = "some faces inverted";
      }
    // dual components over interior manifold edges; where the component can be oriented it is now
    std::vector<int> col(s.nF, 0); // 2-colouring relative to the present orientation
    for (int f0 = 0; f0 < s.nF; f0++) {
      if (col[f0]) continue;
      std::vector<int> st = {f0}, all;
      col[f0] = 1;
      bool orientable = true, mixed = false;
      while (!st.empty()) {
        int f = st.back();
        st.pop_back();
        all.push_back(f);
        for (int x : cycle(s, f)) {
          auto& l = s.edgeHe[s.edge[x]];
          if (l.size() != 2) continue;
          int y = l[0] == x ? l[1] : l[0];
          int want = sameDir(s, x, y) ? -col[f] : col[f];
          int g = s.face[y];
          if (!col[g]) {
            col[g] = want;
            st.push_back(g);
          } else if (col[g] != want)
            orientable = false;
        }
      }
      for (int f : all) mixed = mixed || col[f] != col[all[0]];
      NAV_CHECK(!orientable || !mixed, "an orientable set of faces was left inconsistently oriented");
      if (!orientable) out = "non-orientable component";
    }
    break;
  }
  case K::Compress: {
    Data<Vertex> dv(m);
    Data<Halfedge> dh(m);
    Data<Edge> de(m);
    Data<Face> df(m);
    std::map<int, int> lv, lh, le, lf;
    for (int i = 0; i < s.nV; i++) lv[dv.d[h.V[i]]] = i;
    for (int i = 0; i < s.nH(); i++) lh[dh.d[h.H[i]]] = i;
    for (int i = 0; i < s.nE; i++) le[de.d[h.E[i]]] = i;
    for (int i = 0; i < s.nF; i++) lf[df.d[h.F[i]]] = i;
    m.compress();
    NAV_CHECK(m.isCompressed(), "");
    NAV_CHECK(m.vertexIndexSize() == 0 || true, "");
    auto re = [&](auto& v, const auto& d, const auto& l, auto all) -> std::string {
      size_t n = 0;
      for (auto e : all) {
        auto it = l.find(d.d[e]);
        NAV_CHECK(it != l.end(), "container entry lost by compress()");
        NAV_CHECK(e.getIndex() < v.size(), "index not dense after compress()");
        v[it->second] = e;
        n++;
      }
      NAV_CHECK(n == v.size(), "element lost by compress()");
      return "";
    };
    r = re(h.V, dv, lv, m.vertices());
    if (r.empty()) r = re(h.H, dh, lh, m.halfedges());
    if (r.empty()) r = re(h.E, de, le, m.edges());
    if (r.empty()) r = re(h.F, df, lf, m.faces());
    if (!r.empty()) return r;
    return verify(w);
  }
  }
  r = verify(w);
  if (r.empty()) r = data.check(m);
  return r;
}

static Handles moved(const Handles& h, SurfaceMesh* m) {
  Handles r;
  for (auto x : h.H) r.H.push_back(Halfedge(m, x.getIndex()));
  for (auto x : h.V) r.V.push_back(Vertex(m, x.getIndex()));
  for (auto x : h.E) r.E.push_back(Edge(m, x.getIndex()));
  for (auto x : h.F) r.F.push_back(Face(m, x.getIndex()));
  return r;
}
static std::unique_ptr<World> duplicate(World& w) {
  std::unique_ptr<World> x(new World());
  x->m = w.m->copy();
  x->s = w.s;
  x->h = moved(w.h, x->m.get());
  return x;
}

// conversion to a manifold mesh: succeeds exactly when the surface is manifold and oriented, and is then the same surface
static std::string converts(World& w, std::string& out) {
  const HS& s = w.s;
  Polys p;
  gen::Twins t;
  std::vector<std::pair<int, int>> pos(s.nH());
  std::vector<int> faceOrder(s.nF), vertOrder(s.nV), vNew(s.nV);
  std::iota(faceOrder.begin(), faceOrder.end(), 0);
  std::iota(vertOrder.begin(), vertOrder.end(), 0);
  std::sort(faceOrder.begin(), faceOrder.end(), [&](int a, int b) { return w.h.F[a].getIndex() < w.h.F[b].getIndex(); });
  std::sort(vertOrder.begin(), vertOrder.end(), [&](int a, int b) { return w.h.V[a].getIndex() < w.h.V[b].getIndex(); });
  for (int i = 0; i < s.nV; i++) vNew[vertOrder[i]] = i;
  std::vector<std::vector<int>> cyc;
  for (int f : faceOrder) {
    auto c = cycle(s, f);
    // start at the face's own first halfedge
    while (w.h.H[c[0]] != w.h.F[f].halfedge()) std::rotate(c.begin(), c.begin() + 1, c.end());
    p.emplace_back();
    for (int i = 0; i < (int)c.size(); i++) {
      pos[c[i]] = {(int)cyc.size(), i};
      p.back().push_back(vNew[s.tail[c[i]]]);
    }
    cyc.push_back(c);
  }
  bool ok = true;
  for (auto& l : s.edgeHe) ok = ok && (l.size() == 1 || (l.size() == 2 && !sameDir(s, l[0], l[1])));
  for (auto& c : cyc) {
    t.emplace_back();
    for (int x : c) {
      auto& l = s.edgeHe[s.edge[x]];
      t.back().push_back(l.size() == 2 ? gen::Twin(pos[l[0] == x ? l[1] : l[0]]) : gen::Twin(-1, -1));
    }
  }
  HS hs;
  std::string why = ok ? gen::manifoldFromTwins(p, t, hs) : "edges";
  std::unique_ptr<ManifoldSurfaceMesh> c;
  std::string what;
  try {
    c = w.m->toManifoldMesh();
  } catch (const std::exception& e) {
    what = e.what();
  }
  out = why.empty() ? "convertible" : "not convertible";
  NAV_CHECK((c != nullptr) == why.empty(), "toManifoldMesh ", c ? "accepted a surface that is not manifold and oriented" : "rejected: " + what, " (", why, ")");
  if (!c) return "";
  Handles hh;
  std::string r = nav::bind(*c, hs, hh);
  if (r.empty()) r = checkNav(*c, hs, hh);
  return r.empty() ? r : "toManifoldMesh: " + r;
}

static uint64_t hashWorld(const World& w) {
  const HS& s = w.s;
  uint64_t x = hashVec(s.tail);
  x = mix(x, hashVec(s.next));
  x = mix(x, hashVec(s.edge));
  x = mix(x, hashVec(s.face));
  for (auto v : w.h.H) x = mix(x, v.getIndex());
  for (auto v : w.h.E) x = mix(x, v.getIndex() * 3 + v.halfedge().getIndex());
  for (auto v : w.h.V) x = mix(x, v.getIndex() * 5 + v.halfedge().getIndex());
  for (auto v : w.h.F) x = mix(x, v.getIndex() * 7 + v.halfedge().getIndex());
  return x;
}

static void explore(Ctx& ctx, const Polys& p, int depth, bool conv) {
  std::unordered_set<uint64_t> seen;
  std::string path;
  std::function<void(World&, int)> rec = [&](World& w, int d) {
    std::string o;
    {
      std::string e;
      auto g = w.m->copyToSurfaceMesh();
      Handles hh = moved(w.h, g.get());
      e = checkNav(*g, w.s, hh);
      if (!e.empty()) return ctx.fail(cat("copy:", str(p), path), cat("copyToSurfaceMesh of ", str(p), path, ": ", e));
      if (conv) {
        e = converts(w, o);
        ctx.outcome(o);
        if (!e.empty()) return ctx.fail(cat("convert:", str(p), path), cat(str(p), path, ": ", e));
      }
    }
    if (d == 0) {
      ctx.trace();
      return;
    }
    for (auto& op : ops(w, true)) {
      auto x = duplicate(w);
      std::string keep = path, out;
      path += " " + str1(op);
      ctx.note(str(p) + path);
      std::string e;
      try {
        e = apply(*x, op, out);
      } catch (const std::exception& ex) {
        e = cat("exception ", ex.what());
      }
      ctx.transition();
      ctx.outcome(cat(kname(op.k), ":", e.empty() ? out : "FAIL"));
      if (!e.empty()) ctx.fail(cat(kname(op.k), ":", str(p), path), cat(str(p), path, ": ", e));
      else if (out != "skip") {
        uint64_t k = mix(hashWorld(*x), d);
        if (seen.insert(k).second) {
          ctx.state(mix(k, 1));
          rec(*x, d - 1);
        }
      }
      path = keep;
    }
    // the mesh the copies were taken from is untouched
    std::string e = verify(w);
    if (!e.empty()) ctx.fail(cat("original:", str(p), path), cat("mutating a copy changed the original ", str(p), path, ": ", e));
  };
  World w;
  w.m.reset(new SurfaceMesh(p));
  w.s = gen::fromPolys(p);
  std::string e = nav::bind(*w.m, w.s, w.h);
  if (!e.empty()) return ctx.fail("bind:" + str(p), e);
  rec(w, depth);
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C04";
  o.technique = "exhaustive search over operation sequences from every small general mesh, compared with an explicit half-edge model after every step";
  o.rule = "every multiset of oriented polygons below the bound plus book / fan / Moebius / pinched families; every operation at every element, up to the depth; "
           "separate/flip outcomes that are documented as arbitrary are read back and checked against the documented constraints";
  o.assumptions = {"flips that would create a self-edge are not judged (general meshes never contain self-edges here)", "element handles of general meshes stay valid (no operation of the class deletes elements)"};
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    ctx.sample("[[0,1,2],[0,1,3],[0,1,4]] duplicateFace(0) separateNonmanifoldEdges separateNonmanifoldVertices greedilyOrientFaces");
    size_t n = 0;
    auto start = [&](const std::string& nm, const Polys& p, int depth, bool conv = true) {
      if (!gen::noSelfEdge(p) || !gen::allReferenced(p)) return;
      if (!ctx.beginf([&] { return cat(nm, ":", str(p)); })) return;
      explore(ctx, p, depth, conv);
      n++;
    };
    auto all = [&](const std::string& nm, const Polys& al, size_t V, size_t k, int depth, size_t stride = 1) {
      size_t i = 0;
      gen::multisets(al.size(), k, [&](const std::vector<size_t>& ix) {
        Polys p;
        for (size_t j : ix) p.push_back(al[j]);
        if (gen::maxVert(p) + 1 != V || !gen::allReferenced(p)) return;
        if (i++ % stride) return;
        start(nm, p, depth);
      });
    };
    all("tri3", gen::orientedPolys(3, 3), 3, 1, 4);
    all("tri3", gen::orientedPolys(3, 3), 3, 2, th ? 3 : 2);
    all("tri3", gen::orientedPolys(3, 3), 3, 3, 2);
    all("tri4", gen::orientedPolys(4, 3), 4, 2, 3);
    all("tri4", gen::orientedPolys(4, 3), 4, 3, th ? 3 : 2);
    all("tri4", gen::orientedPolys(4, 3), 4, 4, 2);
    all("tri5", gen::orientedPolys(5, 3), 5, 2, 2);
    all("tri5", gen::orientedPolys(5, 3), 5, 3, 2);
    if (th) all("tri6", gen::orientedPolys(6, 3), 6, 3, 1);
    Polys mix4 = gen::orientedPolys(4, 3), q4 = gen::orientedPolys(4, 4);
    mix4.insert(mix4.end(), q4.begin(), q4.end());
    all("mix4", mix4, 4, 2, th ? 2 : 1);
    all("mix4", mix4, 4, 3, 1);
    // families
    auto fam = [&](const std::string& nm, Polys p, int depth) {
      start(nm, p, depth);
      for (size_t i = 0; i < p.size(); i += 2) std::reverse(p[i].begin(), p[i].end());
      start(nm, p, depth);
    };
    for (size_t k = 2; k <= 7; k++) fam(cat("book", k), gen::book(k), k <= (th ? 6u : 4u) ? 2 : 1);
    for (size_t k = 3; k <= 6; k++) fam(cat("closedFan", k), gen::closedFan(k), th || k <= 4 ? 2 : 1);
    for (size_t k = 3; k <= 5; k++) fam(cat("bipyramid", k), gen::bipyramid(k), th && k <= 4 ? 2 : 1);
    fam("tetra", gen::tetra(), 2);
    fam("cube", gen::cube(), 1);
    fam("grid", gen::grid(2, 2, 1), 1);
    fam("torus", gen::grid(3, 3, 1, true, true), 1);
    fam("moebius5", {{0, 1, 2}, {1, 2, 3}, {2, 3, 4}, {3, 4, 0}, {4, 0, 1}}, th ? 2 : 1);
    fam("moebiusquads", {{0, 1, 4, 3}, {1, 2, 5, 4}, {2, 3, 0, 5}}, 2);
    fam("pinch", {{0, 1, 2}, {0, 3, 4}}, 2);
    fam("pinch3", {{0, 1, 2}, {0, 3, 4}, {0, 5, 6}}, 2);
    fam("pinchclosed", {{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {0, 4, 5}, {0, 5, 6}, {0, 6, 4}}, 1);
    fam("rp2", {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 5, 1}, {1, 2, 4}, {2, 3, 5}, {3, 4, 1}, {4, 5, 2}, {5, 1, 3}}, 1);
    fam("selfbook", {{0, 1, 2, 0, 1, 3}}, 2); // one face with two sides on an edge
    fam("twotetra", gen::disjointUnion(gen::tetra(), gen::tetra()), 1);
    // the manifold class refuses these operations
    if (ctx.begin("manifold-class")) {
      for (auto& p : std::vector<Polys>{gen::tetra(), gen::closedFan(4), gen::grid(2, 2, 1)}) {
        ManifoldSurfaceMesh m(p);
        HS s;
        gen::manifoldFromPolys(p, s);
        Handles h;
        nav::bind(m, s, h);
        ctx.transition();
        if (!throws([&] { m.duplicateFace(m.face(0)); })) ctx.fail("manifold-duplicate", "duplicateFace accepted on a manifold mesh");
        if (!throws([&] { m.separateToNewEdge(m.edge(0).halfedge(), m.edge(0).halfedge().sibling()); })) ctx.fail("manifold-separate", "separateToNewEdge accepted on a manifold mesh");
        m.separateNonmanifoldEdges();
        auto par = m.separateNonmanifoldVertices();
        m.greedilyOrientFaces();
        for (Vertex v : m.vertices())
          if (par[v] != v) ctx.fail("manifold-parent", "parent of a vertex of a manifold mesh");
        std::string e = checkNav(m, s, h);
        if (!e.empty()) ctx.fail("manifold-noop", e);
      }
    }
  });
}
