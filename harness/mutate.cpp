// C03: every sequence (up to a depth) of mutation operations on every small manifold mesh, next to a reference map.
// C05 (--data): the same sequences with containers of every element type attached at every point.
// C06 (--compress): every sequence followed by compress() / copies.
#include "refmesh.h"
#include <memory>
using namespace ref;
using namespace mc;
using gen::Polys;
using gen::Twins;

enum Kind { INSALONG, SPLIT, INSV, CONNECT, REMEDGE, REMVERT, COLLAPSE, REMFACE, TRIANGULATE, FLIP, FLIPNOCHECK, SWITCH, SEPARATE, COMPRESS, NK };
static const char* kindName[] = {"insertVertexAlongEdge", "splitEdgeTriangular", "insertVertex", "connectVertices", "removeEdge", "removeVertex", "collapseEdgeTriangular",
                                 "removeFaceAlongBoundary", "triangulate", "flip", "flip(nocheck)", "switchHalfedgeSides", "separateEdge", "compress"};
struct Op {
  Kind k;
  int a, b;
};
static std::string str1(const Op& o) { return cat(kindName[o.k], "(", o.a, o.b >= 0 ? cat(",", o.b) : "", ")"); }

struct Start {
  std::string name;
  Polys p;
  Twins t;
};

static std::vector<std::vector<std::tuple<size_t, size_t>>> tw(const Twins& t) {
  std::vector<std::vector<std::tuple<size_t, size_t>>> r;
  for (auto& x : t) {
    r.emplace_back();
    for (auto& y : x) r.back().emplace_back(y.first < 0 ? INVALID_IND : (size_t)y.first, y.first < 0 ? INVALID_IND : (size_t)y.second);
  }
  return r;
}

static bool g_quiet = false; // replaying an already checked prefix
static int g_mode = 0; // 0: ops, 1: data, 2: copies
#define REQ_(c, ...)                                                                                                  \
  do {                                                                                                                \
    if (!(c)) return cat(__VA_ARGS__);                                                                                \
  } while (0)

// ---- containers attached to the mesh; values must follow the elements
static const char* elemName(Vertex) { return "Vertex"; }
static const char* elemName(Halfedge) { return "Halfedge"; }
static const char* elemName(Corner) { return "Corner"; }
static const char* elemName(Edge) { return "Edge"; }
static const char* elemName(Face) { return "Face"; }
static const char* elemName(BoundaryLoop) { return "BoundaryLoop"; }
static SurfaceMesh& otherMesh() {
  static ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 2}});
  return m;
}

template <class E>
struct Box {
  using D = MeshData<E, int>;
  struct Item {
    const char* how;
    std::unique_ptr<D> d;
    int def, mul;
  };
  std::vector<Item> items;
  std::vector<D> pool;                 // containers that live in a reallocating vector
  std::unique_ptr<D> movedFrom, swapped; // must not disturb anything
  MeshData<E, std::string> str;
  MeshData<E, bool> flag;
  MeshData<E, std::vector<int>> vec;
  std::map<size_t, int> lab; // index -> label of the elements that existed when the containers were made

  Box(SurfaceMesh& m) {
    for (E e : iterateElements<E>(&m)) lab[e.getIndex()] = 1000 + 7 * (int)e.getIndex();
    auto label = [&](D& d) {
      for (E e : iterateElements<E>(&m)) d[e] = lab[e.getIndex()];
    };
    auto add = [&](const char* how, int def, int mul) -> D& {
      items.push_back({how, std::unique_ptr<D>(new D()), def, mul});
      return *items.back().d;
    };
    auto made = [&](const char* how, D* d, int def, int mul) { items.push_back({how, std::unique_ptr<D>(d), def, mul}); };
    {
      D* d = new D(m);
      label(*d);
      made("plain", d, 0, 1);
    }
    {
      D* d = new D(m, 5);
      label(*d);
      made("init", d, 5, 1);
      made("copied", new D(*d), 5, 1);
    }
    { // copy of a container that goes away
      D t(m, 6);
      label(t);
      made("copied-from-temporary", new D(t), 6, 1);
    }
    { // moved, the source stays in scope
      movedFrom.reset(new D(m, 7));
      label(*movedFrom);
      made("moved", new D(std::move(*movedFrom)), 7, 1);
    }
    { // assigned over containers of this and of another mesh
      D t(m, 8);
      label(t);
      D& a = add("copy-assigned", 8, 1);
      a = D(otherMesh(), 3);
      a = t;
      a = *&a;
      D& b = add("move-assigned", 8, 1);
      b = D(m, 99);
      D t2 = t;
      b = std::move(t2);
      swapped.reset(new D(m, 98));
      D& c = add("swapped", 8, 1);
      c = D(m, 97);
      c = t;
      std::swap(c, *swapped);
      std::swap(*swapped, c);
    }
    {
      D& d = add("setDefault", 9, 1);
      d = D(m, 4);
      label(d);
      d.setDefault(9);
    }
    { // arithmetic; results have default T()
      D t(m, 3), u(m, 2);
      label(t);
      made("sum", new D(t + t), 0, 2);
      made("scaled", new D(3 * t), 0, 3);
      made("negated", new D(-t), 0, -1);
      u.fill(2);
      made("product", new D(t * u), 0, 2);
      D* v = new D(m, 11);
      label(*v);
      *v += t;
      made("plus-assigned", v, 11, 2);
      D* w = new D(m, 12);
      label(*w);
      *w *= 4;
      made("times-assigned", w, 12, 4);
      D* q = new D(m);
      label(*q);
      D one(m);
      one.fill(1);
      *q /= one;
      made("quotient-assigned", q, 0, 1);
      made("quotient", new D(*q / one), 0, 1);
    }
    { // through vectors
      D t(m);
      label(t);
      Eigen::Matrix<int, Eigen::Dynamic, 1> x = t.toVector();
      made("from-vector", new D(m, x), 0, 1);
      MeshData<E, size_t> ind(m, INVALID_IND);
      size_t n = 0, cnt = lab.size();
      for (E e : iterateElements<E>(&m)) ind[e] = cnt - 1 - n++;
      Eigen::Matrix<int, Eigen::Dynamic, 1> y = t.toVector(ind);
      made("from-indexed-vector", new D(m, y, ind), 0, 1);
      D* f = new D(m, 13);
      f->fromVector(x);
      made("filled-from-vector", f, 13, 1);
    }
    for (int i = 0; i < 4; i++) {
      pool.push_back(D(m, 20 + i));
      label(pool.back());
    }
    str = MeshData<E, std::string>(m, "new");
    flag = MeshData<E, bool>(m, false);
    vec = MeshData<E, std::vector<int>>(m, std::vector<int>{1});
    for (E e : iterateElements<E>(&m)) {
      int l = lab[e.getIndex()];
      str[e] = std::to_string(l);
      flag[e] = true;
      vec[e] = std::vector<int>(l % 5 + 2, l);
    }
  }
  bool had(E e) const { return lab.count(e.getIndex()); }
  std::string check1(const char* how, const D& d, int def, int mul, SurfaceMesh& m) const {
    REQ_(d.getMesh() == &m, how, " lost its mesh");
    REQ_(d.getDefault() == def, how, " default");
    std::vector<int> order;
    size_t mx = 0;
    for (E e : iterateElements<E>(&m)) {
      auto it = lab.find(e.getIndex());
      int want = it == lab.end() ? def : mul * it->second;
      REQ_((Eigen::Index)e.getIndex() < d.raw().size(), how, " ", elemName(e), " ", e.getIndex(), " beyond the storage");
      REQ_(e.getIndex() < d.size(), how, " ", elemName(e), " ", e.getIndex(), " not below size() ", d.size());
      int got = d[e];
      REQ_(got == want, how, " ", elemName(e), " ", e.getIndex(), " holds ", got, " expected ", want);
      order.push_back(want);
      mx = std::max(mx, e.getIndex());
    }
    REQ_(d.size() <= (size_t)d.raw().size(), how, " size() ", d.size(), " beyond storage ", d.raw().size());
    auto x = d.toVector();
    REQ_((size_t)x.size() == order.size(), how, " toVector size");
    for (size_t i = 0; i < order.size(); i++) REQ_(x[i] == order[i], how, " toVector entry ", i);
    return "";
  }
  std::string check(SurfaceMesh& m) {
    std::string e;
    for (auto& it : items)
      if (!(e = check1(it.how, *it.d, it.def, it.mul, m)).empty()) return e;
    for (size_t i = 0; i < pool.size(); i++)
      if (!(e = check1("pooled", pool[i], 20 + (int)i, 1, m)).empty()) return e;
    for (E x : iterateElements<E>(&m)) {
      auto it = lab.find(x.getIndex());
      bool had = it != lab.end();
      REQ_(str[x] == (had ? std::to_string(it->second) : std::string("new")), "string container: ", elemName(x), " ", x.getIndex(), " holds ", str[x]);
      REQ_(flag[x] == had, "bool container: ", elemName(x), " ", x.getIndex());
      REQ_(vec[x] == (had ? std::vector<int>(it->second % 5 + 2, it->second) : std::vector<int>{1}), "vector container: ", elemName(x), " ", x.getIndex());
    }
    return "";
  }
  void renumber(const std::map<size_t, size_t>& oldToNew) {
    std::map<size_t, int> n;
    for (auto& kv : oldToNew)
      if (lab.count(kv.first)) n[kv.second] = lab[kv.first];
    lab = n;
  }
};
struct Attached {
  Box<Vertex> v;
  Box<Halfedge> h;
  Box<Corner> c;
  Box<Edge> e;
  Box<Face> f;
  Box<BoundaryLoop> b;
  Attached(SurfaceMesh& m) : v(m), h(m), c(m), e(m), f(m), b(m) {}
  std::string check(SurfaceMesh& m) {
    std::string s;
    (s = v.check(m)).size() || (s = h.check(m)).size() || (s = c.check(m)).size() || (s = e.check(m)).size() || (s = f.check(m)).size() || (s = b.check(m)).size();
    return s;
  }
};

struct World {
  std::vector<std::unique_ptr<Attached>> boxes;
  std::unique_ptr<ManifoldSurfaceMesh> m; // destroyed before the containers
  Ref r;
  std::string start(const Start& s) {
    HS hs;
    std::string why = s.t.empty() ? gen::manifoldFromPolys(s.p, hs) : gen::manifoldFromTwins(s.p, s.t, hs);
    if (!why.empty()) return "not manifold: " + why;
    if (s.t.empty()) m.reset(new ManifoldSurfaceMesh(s.p));
    else m.reset(new ManifoldSurfaceMesh(s.p, tw(s.t)));
    r = Ref::from(hs);
    return r.bindAll(*m, hs);
  }
};

#define REQ(c, ...)                                                                                                   \
  do {                                                                                                                \
    if (!(c)) return cat(#c, " :: ", __VA_ARGS__);                                                                    \
  } while (0)

enum class Must { Succeed, Refuse, Throw, Either, Skip };

// what the reference says about the legality of an operation
static Must legality(const Ref& r, const Op& o) {
  auto tri = [&](int h) { return r.next[r.next[r.next[h]]] == h; };
  switch (o.k) {
  case INSALONG:
  case INSV:
  case TRIANGULATE:
    return Must::Succeed;
  case SPLIT: {
    int t = r.twin[o.a];
    bool ok = (!r.interior(o.a) || tri(o.a)) && (!r.interior(t) || tri(t));
    if (!ok) return Must::Throw;
    if (r.face[o.a] == r.face[t] && r.interior(t)) return Must::Skip; // both sides in one triangle
    return Must::Succeed;
  }
  case CONNECT:
    if (r.face[o.a] != r.face[o.b] || o.a == o.b || r.next[o.a] == o.b || r.next[o.b] == o.a) return Must::Throw;
    return Must::Succeed;
  case REMEDGE: {
    int t = r.twin[o.a];
    if (r.bEdge(o.a)) return Must::Throw;
    if (r.face[o.a] == r.face[t]) return Must::Refuse;
    return Must::Succeed;
  }
  case REMVERT: {
    int v = o.a;
    if (r.bVert(v)) return Must::Throw;
    std::set<int> vs{v}, es, fs;
    size_t ringLen = 0;
    for (int h : r.outgoing(v)) ringLen += r.degree(h) - 2;
    if (ringLen < 3) return Must::Skip; // would leave a face with fewer than three sides
    for (int h : r.outgoing(v)) {
      if (!es.insert(std::min(h, r.twin[h])).second) return Must::Refuse;
      if (!fs.insert(r.face[h]).second) return Must::Refuse;
    }
    for (int h : r.outgoing(v)) {
      auto c = r.cycle(h); // h, ring..., back
      for (size_t i = 1; i + 1 < c.size(); i++) {
        if (!es.insert(std::min(c[i], r.twin[c[i]])).second) return Must::Refuse;
        if (!vs.insert(r.tail[c[i]]).second) return Must::Refuse;
      }
    }
    return Must::Succeed;
  }
  case COLLAPSE: {
    int h = r.interior(o.a) ? o.a : r.twin[o.a], t = r.twin[h];
    if (!tri(h) || (r.interior(t) && !tri(t))) return Must::Throw;
    if (!r.simplicial()) return Must::Skip; // documented precondition
    int a = r.tail[h], b = r.tip(h);
    bool bd = !r.interior(t);
    if (!bd && r.bVert(a) && r.bVert(b)) return Must::Refuse; // would pinch the surface
    // link condition
    auto link = [&](int v) {
      std::set<int> s;
      for (int x : r.outgoing(v)) s.insert(r.tip(x));
      return s;
    };
    std::set<int> la = link(a), lb = link(b), common;
    for (int x : la)
      if (lb.count(x)) common.insert(x);
    size_t want = bd ? 1 : 2;
    if (common.size() != want) return Must::Refuse;
    // links of the edge: opposite vertices; common neighbours must be exactly those (same count + always contained)
    // a component that is a single triangle, or a tetrahedron, cannot lose a face pair
    std::set<int> comp;
    std::vector<int> st{a};
    comp.insert(a);
    while (!st.empty()) {
      int x = st.back();
      st.pop_back();
      for (int y : link(x))
        if (comp.insert(y).second) st.push_back(y);
    }
    std::set<int> cf;
    for (int x = 0; x < r.nH(); x++)
      if (r.alive(x) && r.interior(x) && comp.count(r.tail[x])) cf.insert(r.face[x]);
    if (cf.size() == 1) return Must::Refuse;
    bool closed = true;
    for (int x = 0; x < r.nH(); x++)
      if (r.alive(x) && comp.count(r.tail[x]) && !r.interior(x)) closed = false;
    if (closed && comp.size() == 4) return Must::Either; // leaves two triangles glued along three edges
    if (bd) {
      // both boundary edges of the triangle opposite... collapsing a boundary edge of a 3-sided hole closes it up
      int n = (int)r.cycle(t).size();
      if (n <= 3) return Must::Refuse;
    }
    // the two triangles must not be glued to boundary on both remaining sides
    auto open2 = [&](int x) { return !r.interior(r.twin[r.next[x]]) && !r.interior(r.twin[r.next[r.next[x]]]); };
    if (open2(h) || (r.interior(t) && open2(t))) return Must::Refuse;
    // an interior vertex merged into its neighbourhood must leave a disk
    return Must::Succeed;
  }
  case REMFACE: {
    auto c = r.faceHes(o.a);
    int nb = 0, hb = -1;
    for (int h : c)
      if (!r.interior(r.twin[h])) {
        nb++;
        hb = h;
      }
    if (nb == 0) return Must::Throw;
    if (nb > 1) return Must::Refuse;
    std::set<int> vs;
    for (int h : c) {
      if (!vs.insert(r.tail[h]).second) return Must::Refuse;
      if (r.face[r.twin[h]] == o.a) return Must::Refuse;
      if (h != hb && r.tail[h] != r.tip(hb) && r.bVert(r.tail[h])) return Must::Refuse;
    }
    return Must::Succeed;
  }
  case FLIP:
  case FLIPNOCHECK: {
    int h = o.a, t = r.twin[h];
    if (r.bEdge(h) || !tri(h) || !tri(t)) return Must::Refuse;
    if (r.next[h] == t || r.next[t] == h) return Must::Refuse;
    if (o.k == FLIP) {
      int c = r.tail[r.next[r.next[h]]], d = r.tail[r.next[r.next[t]]];
      if (c == d) return Must::Refuse;
      for (int x : r.outgoing(c))
        if (r.tip(x) == d) return Must::Refuse;
    }
    return Must::Succeed;
  }
  case SWITCH:
    return r.bEdge(o.a) ? Must::Skip : Must::Succeed;
  case SEPARATE: {
    if (r.bEdge(o.a)) return Must::Throw;
    int a = r.tail[o.a], b = r.tip(o.a);
    if (a == b) return Must::Throw;
    if (r.bVert(a) && r.bVert(b)) return Must::Throw;
    return Must::Succeed;
  }
  case COMPRESS:
    return Must::Succeed;
  default:
    return Must::Skip;
  }
}

// compress() renumbers the elements: they are found again through labels
static std::string compressMesh(World& w) {
  Ref& r = w.r;
  ManifoldSurfaceMesh& m = *w.m;
  bool was = m.isCompressed();
  VertexData<int> lv(m, -1);
  HalfedgeData<int> lh(m, -1);
  FaceData<int> lf(m, -1);
  EdgeData<int> le(m, -1);
  BoundaryLoopData<int> lb(m, -1);
  for (int x : r.verts()) lv[r.V[x]] = x;
  for (int x : r.faces()) lf[r.F[x]] = x;
  for (int x = 0; x < r.nB; x++)
    if (r.bAlive[x]) lb[r.B[x]] = x;
  for (int x = 0; x < r.nH(); x++)
    if (r.alive(x)) {
      lh[r.H[x]] = x;
      le[r.H[x].edge()] = std::min(x, r.twin[x]);
    }
  std::map<int, size_t> oe; // edge slot -> old index
  for (int x : r.edges()) oe[x] = r.H[x].edge().getIndex();
  Ref old = r;
  size_t calls = 0;
  auto cb = m.compressCallbackList.insert(m.compressCallbackList.end(), [&] { calls++; });
  m.compress();
  m.compressCallbackList.erase(cb);
  REQ(m.isCompressed(), "isCompressed() after compress()");
  REQ(calls == (was ? 0 : 1), "compress callbacks called ", calls, " times");
  std::map<size_t, size_t> mv, mh, mf, me, mb;
  size_t n = 0;
  for (Vertex v : m.vertices()) {
    REQ(v.getIndex() == n++ && lv[v] >= 0 && lv[v] < r.nV && r.vAlive[lv[v]], "vertex numbering after compress");
    r.V[lv[v]] = v;
    REQ(mv.emplace(old.V[lv[v]].getIndex(), v.getIndex()).second, "vertex label twice");
  }
  n = 0;
  for (Halfedge h : m.halfedges()) {
    REQ(h.getIndex() == n++ && lh[h] >= 0 && lh[h] < r.nH() && r.alive(lh[h]), "halfedge numbering after compress");
    r.H[lh[h]] = h;
    REQ(mh.emplace(old.H[lh[h]].getIndex(), h.getIndex()).second, "halfedge label twice");
  }
  n = 0;
  for (Face f : m.faces()) {
    REQ(f.getIndex() == n++ && lf[f] >= 0 && lf[f] < r.nF && r.fAlive[lf[f]], "face numbering after compress");
    r.F[lf[f]] = f;
    REQ(mf.emplace(old.F[lf[f]].getIndex(), f.getIndex()).second, "face label twice");
  }
  n = 0;
  for (Edge e : m.edges()) {
    REQ(e.getIndex() == n++ && oe.count(le[e]), "edge numbering after compress");
    REQ(e == r.H[le[e]].edge(), "edge label ", le[e], " on the wrong edge");
    REQ(me.emplace(oe[le[e]], e.getIndex()).second, "edge label twice");
  }
  n = 0;
  for (BoundaryLoop b : m.boundaryLoops()) {
    REQ(b.getIndex() == n++ && lb[b] >= 0 && lb[b] < r.nB && r.bAlive[lb[b]], "boundary loop numbering after compress");
    r.B[lb[b]] = b;
    REQ(mb.emplace(old.B[lb[b]].getIndex(), b.getIndex()).second, "boundary loop label twice");
  }
  for (int x = 0; x < r.nV; x++)
    if (!r.vAlive[x]) r.V[x] = Vertex();
  for (int x = 0; x < r.nF; x++)
    if (!r.fAlive[x]) r.F[x] = Face();
  for (int x = 0; x < r.nH(); x++)
    if (!r.alive(x)) r.H[x] = Halfedge();
  for (auto& p : w.boxes) {
    p->v.renumber(mv);
    p->h.renumber(mh);
    p->c.renumber(mh);
    p->e.renumber(me);
    p->f.renumber(mf);
    p->b.renumber(mb);
  }
  return "";
}

// perform the operation on the mesh and on the reference
static std::string apply(World& w, const Op& o, std::string& out) {
  Ref& r = w.r;
  ManifoldSurfaceMesh& m = *w.m;
  Must must = legality(r, o);
  bool threw = false, refused = false;
  std::string what;
  auto E = [&](int h) { return r.H[h].edge(); };
  auto canon = [&](int h) { return E(h).halfedge() == r.H[h] ? h : r.twin[h]; };
  Halfedge rh, rh2;
  Vertex rv;
  Face rf;
  std::vector<Face> rfs;
  try {
    switch (o.k) {
    case INSALONG: rh = m.insertVertexAlongEdge(E(o.a)); break;
    case SPLIT: {
      int c = canon(o.a);
      (void)c;
      rh = m.splitEdgeTriangular(E(o.a));
      break;
    }
    case INSV: rv = m.insertVertex(r.F[o.a]); break;
    case CONNECT: rh = m.connectVertices(r.H[o.a], r.H[o.b]); break;
    case REMEDGE: rf = m.removeEdge(E(o.a)); refused = rf == Face(); break;
    case REMVERT: rf = m.removeVertex(r.V[o.a]); refused = rf == Face(); break;
    case COLLAPSE: rv = m.collapseEdgeTriangular(E(o.a)); refused = rv == Vertex(); break;
    case REMFACE: refused = !m.removeFaceAlongBoundary(r.F[o.a]); break;
    case TRIANGULATE: rfs = m.triangulate(r.F[o.a]); break;
    case FLIP: refused = !m.flip(E(o.a)); break;
    case FLIPNOCHECK: refused = !m.flip(E(o.a), false); break;
    case SWITCH: rh = m.switchHalfedgeSides(E(o.a)); break;
    case SEPARATE: std::tie(rh, rh2) = m.separateEdge(E(o.a)); break;
    case COMPRESS: {
      std::string e = compressMesh(w);
      if (!e.empty()) return e;
      break;
    }
    default: break;
    }
  } catch (const std::runtime_error& e) {
    threw = true;
    what = e.what();
  }
  out = threw ? "throw" : refused ? "refused" : "done";
  if (must == Must::Throw) REQ(threw, "expected an exception");
  if (must == Must::Refuse) REQ(threw || refused, "operation must be refused");
  if (must == Must::Succeed) REQ(!threw && !refused, "operation must succeed ", what);
  if (threw || refused) return g_quiet ? std::string() : r.compare(m);

  switch (o.k) {
  case INSALONG:
  case SPLIT: {
    int h = -1; // canonical direction: the returned halfedge tells which way (tip is unchanged)
    // the original e.halfedge() direction was saved by the caller in o.b (slot)
    h = o.b;
    int t = r.twin[h];
    Halfedge oldH = r.H[h], oldT = r.H[t];
    int nv = r.newV();
    int n = r.newPair(r.tail[h], nv), nT = n + 1;
    int p = r.prev(h);
    r.next[p] = n;
    r.next[n] = h;
    r.face[n] = r.face[h];
    int nx = r.next[t];
    r.next[t] = nT;
    r.next[nT] = nx;
    r.face[nT] = r.face[t];
    r.tail[h] = nv;
    r.H[h] = rh;
    r.H[t] = rh.twin();
    REQ(rh.tipVertex() == r.V[r.tip(h)] , "returned halfedge must point along e.halfedge()");
    for (auto v : r.V) REQ(rh.vertex() != v, "returned halfedge must leave the new vertex");
    r.V[nv] = rh.vertex();
    if (o.k == SPLIT) {
      for (int s : {h, t}) {
        if (!r.interior(s)) continue;
        // s side: cycle of four, new vertex is tail of one member
        auto c = r.cycle(s);
        int k = 0;
        while (r.tail[c[k]] != nv) k++;
        std::rotate(c.begin(), c.begin() + k, c.end());
        int oldF = r.face[s];
        int d = r.newPair(nv, r.tail[c[2]]); // d: nv->opposite, d+1 back
        int nf = r.newF();
        // which of the two keeps the face handle is up to the implementation
        bool firstKeeps = r.H[h] == Halfedge() ? true : true;
        (void)firstKeeps;
        r.setCycle({c[0], c[1], d + 1}, oldF);
        r.setCycle({c[2], c[3], d}, nf);
        r.F[nf] = Face();
      }
    }
    std::string e = "";
    // bind halves, then decide faces
    for (int i = 0; i < r.nH(); i++)
      if (r.alive(i) && r.H[i] == Halfedge()) { /* found by walking */
      }
    if (o.k == SPLIT) {
      // bind halfedges only
      std::vector<Face> savedF = r.F;
      e = r.bindNew();
      REQ(e.empty(), e);
      // faces: one of the two keeps its handle
      for (int s : {h, t}) {
        if (!r.interior(s)) continue;
        int f1 = r.face[s], f2 = -1;
        // neighbour across the new diagonal
        for (int x : r.cycle(s))
          if (r.twin[x] >= nT + 1 || x > nT) f2 = r.face[r.twin[x]];
        if (f2 < 0) continue;
        int keep = f1 < f2 ? f1 : f2, fresh = f1 < f2 ? f2 : f1;
        int hk = r.faceHes(keep)[0], hf = r.faceHes(fresh)[0];
        Face old = savedF[keep];
        REQ(r.H[hk].face() == old || r.H[hf].face() == old, "the split face must keep its handle for one part");
        r.F[keep] = r.H[hk].face();
        r.F[fresh] = r.H[hf].face();
      }
    } else {
      e = r.bindNew();
      REQ(e.empty(), e);
    }
    // the original halfedges are reused for one of the two halves, same direction
    REQ((r.H[h] == oldH && r.H[t] == oldT) || (r.H[n] == oldH && r.H[nT] == oldT), "original edge must become one of the halves");
    REQ(r.H[h].edge().halfedge() == r.H[h] && r.H[n].edge().halfedge() == r.H[n], "both halves keep the direction of e.halfedge()");
    break;
  }
  case INSV: {
    auto c = r.faceHes(o.a);
    int nv = r.newV();
    for (auto v : r.V)
      if (v != Vertex()) REQ(rv != v, "returned vertex must be new");
    r.V[nv] = rv;
    std::vector<int> lead;
    size_t d = c.size();
    std::vector<int> tips;
    for (int h : c) tips.push_back(r.tip(h));
    for (size_t i = 0; i < d; i++) lead.push_back(r.newPair(tips[i], nv));
    int kept = 0;
    Face old = r.F[o.a];
    for (size_t i = 0; i < d; i++) {
      int f = r.newF();
      r.setCycle({c[i], lead[i], lead[(i + d - 1) % d] + 1}, f);
      r.F[f] = r.H[c[i]].face();
      kept += r.F[f] == old;
    }
    r.fAlive[o.a] = 0;
    REQ(kept == 1, "exactly one part must keep the face handle");
    std::string e = r.bindNew();
    REQ(e.empty(), e);
    break;
  }
  case CONNECT: {
    int f = r.face[o.a];
    int va = r.tail[o.a], vb = r.tail[o.b];
    auto c = r.cycle(o.a);
    size_t k = std::find(c.begin(), c.end(), o.b) - c.begin();
    std::vector<int> c1(c.begin(), c.begin() + k), c2(c.begin() + k, c.end());
    int n = r.newPair(va, vb);
    int nf = r.newF();
    c2.push_back(n);
    c1.push_back(n + 1);
    r.setCycle(c2, f);
    r.setCycle(c1, nf);
    r.H[n] = rh;
    r.H[n + 1] = rh.twin();
    r.F[nf] = rh.twin().face();
    REQ(rh.vertex() == r.V[va] && rh.tipVertex() == r.V[vb], "returned halfedge must join the two corners");
    break;
  }
  case REMEDGE: {
    int h = o.a, t = r.twin[h];
    auto c1 = r.cycle(h), c2 = r.cycle(t);
    int f1 = r.face[h], f2 = r.face[t];
    REQ(rf == r.F[f1] || rf == r.F[f2], "the surviving face must be one of the two");
    int keep = rf == r.F[f1] ? f1 : f2;
    std::vector<int> c(c1.begin() + 1, c1.end());
    c.insert(c.end(), c2.begin() + 1, c2.end());
    r.kill(h);
    r.kill(t);
    r.fAlive[f1] = r.fAlive[f2] = 0;
    r.fAlive[keep] = 1;
    r.setCycle(c, keep);
    break;
  }
  case REMVERT: {
    // walk around the vertex and chain the outer paths
    auto outs = r.outgoing(o.a);
    std::vector<int> ring;
    int h = outs[0], keep = -1;
    std::vector<int> fs, dead;
    do {
      auto c = r.cycle(h);
      for (size_t i = 1; i + 1 < c.size(); i++) ring.push_back(c[i]);
      fs.push_back(r.face[h]);
      if (r.F[r.face[h]] == rf) keep = r.face[h];
      dead.push_back(h);
      h = r.twin[c.back()];
    } while (h != outs[0]);
    REQ(keep >= 0, "the surviving face must be one of the star");
    for (int x : dead) {
      r.kill(r.twin[x]);
      r.kill(x);
    }
    for (int f : fs) r.fAlive[f] = 0;
    r.fAlive[keep] = 1;
    r.vAlive[o.a] = 0;
    r.setCycle(ring, keep);
    break;
  }
  case COLLAPSE: {
    int h = r.interior(o.a) ? o.a : r.twin[o.a], t = r.twin[h];
    int a = r.tail[h], b = r.tip(h);
    REQ(rv == r.V[a] || rv == r.V[b], "the surviving vertex must be one of the end points");
    int keepV = rv == r.V[a] ? a : b, goneV = keepV == a ? b : a;
    int pt = r.prev(t), nt = r.next[t];
    std::vector<int> dead{h, t};
    auto eat = [&](int x) { // triangle x,y,z disappears, its other two sides become one edge
      int y = r.next[x], z = r.next[y];
      int oy = r.twin[y], oz = r.twin[z];
      dead.push_back(y);
      dead.push_back(z);
      r.fAlive[r.face[x]] = 0;
      r.twin[oy] = oz;
      r.twin[oz] = oy;
      r.H[oy] = r.H[oz] = Halfedge();
    };
    bool bd = !r.interior(t);
    eat(h);
    if (!bd) eat(t);
    else r.next[pt] = nt;
    for (int x : dead) r.kill(x);
    for (int x = 0; x < r.nH(); x++)
      if (r.alive(x) && r.tail[x] == goneV) r.tail[x] = keepV;
    r.vAlive[goneV] = 0;
    // merged sides: find handles from a neighbour in the same face / loop
    std::string e = r.bindNew();
    REQ(e.empty(), e);
    break;
  }
  case REMFACE: {
    auto c = r.faceHes(o.a);
    int hb = -1;
    for (int h : c)
      if (!r.interior(r.twin[h])) hb = h;
    int t = r.twin[hb], loop = r.face[t];
    std::vector<int> rest = r.cycle(hb);
    rest.erase(rest.begin());
    auto lc = r.cycle(t);
    lc.erase(lc.begin());
    lc.insert(lc.end(), rest.begin(), rest.end());
    r.kill(hb);
    r.kill(t);
    r.setCycle(lc, loop);
    r.fAlive[o.a] = 0;
    // e.halfedge() must be interior, so the two handles of an edge may have been exchanged: rebind those edges
    for (int h : rest) {
      Edge e = r.H[h].edge();
      REQ(e.halfedge().isInterior(), "edge of removed face must keep an interior halfedge");
      r.H[r.twin[h]] = e.halfedge();
      r.H[h] = e.halfedge().twin();
    }
    break;
  }
  case TRIANGULATE: {
    auto c = r.faceHes(o.a);
    size_t d = c.size();
    REQ(rfs.size() == (d > 3 ? d - 2 : 1), "triangulate must return ", d - 2, " faces");
    std::set<size_t> fi;
    bool hasOld = false;
    for (Face f : rfs) {
      REQ(fi.insert(f.getIndex()).second, "duplicate face returned");
      hasOld = hasOld || f == r.F[o.a];
      REQ(f.degree() == 3, "a returned face is not a triangle");
    }
    REQ(hasOld, "the input face must be one of the result");
    if (d == 3) break;
    // read the new diagonals off the mesh, then check that they triangulate the polygon
    std::map<size_t, int> slot; // halfedge index -> slot
    for (int h : c) slot[r.H[h].getIndex()] = h;
    Face old = r.F[o.a];
    r.fAlive[o.a] = 0;
    size_t inner = 0;
    for (Face f : rfs)
      for (Halfedge he : f.adjacentHalfedges()) {
        if (slot.count(he.getIndex())) continue;
        for (int x = 0; x < r.nH(); x++)
          if (r.alive(x)) REQ(r.H[x] != he, "triangulate used a halfedge outside the face");
        Halfedge ht = he.twin();
        int va = -1, vb = -1;
        for (int h : c) {
          if (r.V[r.tail[h]] == he.vertex()) va = r.tail[h];
          if (r.V[r.tail[h]] == ht.vertex()) vb = r.tail[h];
        }
        REQ(va >= 0 && vb >= 0, "diagonal must join corners of the face");
        int n = r.newPair(va, vb);
        r.H[n] = he;
        r.H[n + 1] = ht;
        slot[he.getIndex()] = n;
        slot[ht.getIndex()] = n + 1;
        inner++;
      }
    REQ(inner == d - 3, "triangulate must add ", d - 3, " edges, added ", inner);
    std::set<int> used;
    for (Face f : rfs) {
      std::vector<int> cyc;
      for (Halfedge he : f.adjacentHalfedges()) {
        cyc.push_back(slot[he.getIndex()]);
        REQ(used.insert(cyc.back()).second, "halfedge in two faces");
      }
      int nf = r.newF();
      r.F[nf] = f;
      r.setCycle(cyc, nf);
    }
    REQ(used.size() == d + 2 * (d - 3), "faces do not tile the polygon");
    // outer boundary of the patch must be the polygon in order
    for (size_t i = 0; i < d; i++) {
      int h = r.next[c[i]], guard = 0;
      while (std::find(c.begin(), c.end(), h) == c.end() && guard++ < 99) h = r.next[r.twin[h]];
      REQ(h == c[(i + 1) % d], "triangulation does not follow the polygon");
    }
    break;
  }
  case FLIP:
  case FLIPNOCHECK: {
    int h = o.a, t = r.twin[h];
    int h2 = r.next[h], h3 = r.next[h2], t2 = r.next[t], t3 = r.next[t2];
    int c = r.tail[h3], d = r.tail[t3];
    Halfedge oh = r.H[h], ot = r.H[t];
    // the edge now joins c and d; which of its halfedges points which way is read off the mesh (except that they stay on the same edge)
    int fh = r.face[h], ft = r.face[t];
    r.setCycle({h, t3, h2}, fh);
    r.setCycle({t, h3, t2}, ft);
    r.tail[h] = c;
    r.tail[t] = d;
    // one of the two directions
    bool swapped = oh.next() == r.H[h3];
    if (swapped) {
      r.H[h] = ot;
      r.H[t] = oh;
    }
    // faces: each triangle keeps one of the two handles
    Face f1 = r.F[fh], f2 = r.F[ft];
    r.F[fh] = r.H[h].face();
    r.F[ft] = r.H[t].face();
    REQ((r.F[fh] == f1 && r.F[ft] == f2) || (r.F[fh] == f2 && r.F[ft] == f1), "the two triangles must keep their handles");
    break;
  }
  case SWITCH: {
    int t = r.twin[o.a];
    std::swap(r.H[o.a], r.H[t]);
    REQ(rh == r.H[o.a].edge().halfedge(), "returns e.halfedge()");
    break;
  }
  case SEPARATE: {
    int h = o.b, t = r.twin[h]; // h is e.halfedge()
    Edge oldE = r.H[h].edge();
    int a = r.tail[h], b = r.tip(h);
    bool ba = r.bVert(a), bb = r.bVert(b);
    Halfedge oh = r.H[h], ot = r.H[t];
    (void)oh;
    (void)ot;
    int hx = h, tx = t;
    if (bb && !ba) {
      std::swap(hx, tx);
      std::swap(a, b);
    }
    // hx: a->b with a possibly on the boundary, tx: b->a
    int x = r.newPair(b, a); // only used as two independent exterior halfedges
    int y = x + 1;
    if (!ba && !bb) {
      int nb = r.newB();
      r.twin[hx] = x;
      r.twin[x] = hx;
      r.twin[tx] = y;
      r.twin[y] = tx;
      r.setCycle({x, y}, -1 - nb);
      r.H[hx] = hx == h ? rh : rh2;
      r.H[tx] = tx == h ? rh : rh2;
      r.B[nb] = r.H[hx].twin().face().asBoundaryLoop();
    } else {
      // fan of a on the left of hx (counter-clockwise), up to the exterior halfedge q leaving a
      std::vector<int> left{hx};
      int c = hx;
      while (r.interior(c)) {
        c = r.twin[r.prev(c)];
        left.push_back(c);
      }
      int q = c, p = r.prev(q);
      int loop = r.face[q];
      int nv = r.newV();
      r.twin[hx] = x;
      r.twin[x] = hx;
      r.twin[tx] = y;
      r.twin[y] = tx;
      // loop: p -> y -> x -> q  (p arrives at the right part, q leaves the left part)
      r.next[p] = y;
      r.next[y] = x;
      r.next[x] = q;
      r.face[x] = r.face[y] = loop;
      for (int l : left) r.tail[l] = nv; // tentatively: the left part gets the new slot
      r.tail[y] = a;
      r.tail[x] = b;
      r.H[hx] = hx == h ? rh : rh2;
      r.H[tx] = tx == h ? rh : rh2;
      // either part may have kept the vertex handle
      Vertex vl = r.H[hx].vertex(), vr = r.H[tx].twin().vertex();
      Vertex old = r.V[a];
      REQ((vl == old) != (vr == old), "exactly one part keeps the vertex");
      r.V[nv] = vl;
      r.V[a] = vr;
    }
    r.H[x] = r.H[hx].twin();
    r.H[y] = r.H[tx].twin();
    REQ(rh.isInterior() && rh2.isInterior(), "returned halfedges must be interior");
    REQ((r.H[hx].edge() == oldE) != (r.H[tx].edge() == oldE), "one of the two copies keeps the edge");
    std::string e = r.bindNew();
    REQ(e.empty(), e);
    break;
  }
  default:
    break;
  }
  if (g_quiet) return "";
  std::string e = r.sane();
  if (!e.empty()) {
    fprintf(stderr, "REFERENCE BROKEN after %s: %s\n", str1(o).c_str(), e.c_str());
    abort();
  }
  return r.compare(m);
}

static std::vector<Op> ops(World& w) {
  Ref& r = w.r;
  std::vector<Op> v;
  auto canon = [&](int h) { return r.H[h].edge().halfedge() == r.H[h] ? h : r.twin[h]; };
  for (int h : r.edges()) {
    int c = canon(h);
    for (Kind k : {INSALONG, SPLIT, REMEDGE, COLLAPSE, FLIP, FLIPNOCHECK, SWITCH, SEPARATE}) v.push_back({k, c, c});
  }
  for (int f : r.faces()) {
    v.push_back({INSV, f, -1});
    v.push_back({REMFACE, f, -1});
    auto c = r.faceHes(f);
    if (c.size() > 3) v.push_back({TRIANGULATE, f, -1});
    for (int a : c)
      for (int b : c)
        if (c.size() > 3 || a == c[0]) v.push_back({CONNECT, a, b});
  }
  for (int x : r.verts()) v.push_back({REMVERT, x, -1});
  if (g_mode == 1 || g_mode == 2) v.push_back({COMPRESS, 0, -1});
  if (r.faces().size() > 1) { // halfedges of different faces cannot be connected
    auto fs = r.faces();
    v.push_back({CONNECT, r.faceHes(fs[0])[0], r.faceHes(fs[1])[0]});
  }
  return v;
}

static std::string replay(World& w, const Start& s, const std::vector<Op>& path) {
  std::string e = w.start(s);
  if (!e.empty()) return e;
  g_quiet = true;
  for (auto& o : path) {
    std::string out;
    if (g_mode == 1) w.boxes.emplace_back(new Attached(*w.m));
    e = apply(w, o, out);
    if (!e.empty()) break;
  }
  g_quiet = false;
  return e;
}


// C05: every attached container, then compress, then again; finally the mesh dies before its containers
static std::string afterData(World& w) {
  std::string e;
  for (size_t i = 0; i < w.boxes.size(); i++)
    if (!(e = w.boxes[i]->check(*w.m)).empty()) return cat("container made before step ", i, ": ", e);
  // some containers go away, in an order that is neither first-in nor last-out
  if (w.boxes.size() > 1) w.boxes.erase(w.boxes.begin() + w.boxes.size() / 2);
  if (!(e = compressMesh(w)).empty()) return "compress: " + e;
  for (auto& b : w.boxes)
    if (!(e = b->check(*w.m)).empty()) return "after compress: " + e;
  // transfer to a copy, which is then grown
  auto c = w.m->copy();
  auto& it = w.boxes[0]->v.items[1];
  VertexData<int> tv = it.d->reinterpretTo(*c);
  CornerData<int> tc = w.boxes[0]->c.items[1].d->reinterpretTo(*c);
  for (Vertex v : c->vertices()) REQ_(tv[v] == (*it.d)[w.m->vertex(v.getIndex())], "reinterpretTo vertex ", v.getIndex());
  for (Corner x : c->corners()) REQ_(tc[x] == (*w.boxes[0]->c.items[1].d)[w.m->corner(x.getIndex())], "reinterpretTo corner ", x.getIndex());
  if (c->nFaces() > 0) {
    size_t n0 = c->nVertices(), h0 = c->nHalfedges();
    c->insertVertex(c->face(0));
    for (Vertex v : c->vertices()) REQ_(tv[v] == (v.getIndex() < n0 ? (*it.d)[w.m->vertex(v.getIndex())] : it.def), "reinterpretTo, grown, vertex ", v.getIndex());
    for (Corner x : c->corners())
      if (x.getIndex() >= h0) REQ_(tc[x] == 5, "reinterpretTo, grown, corner ", x.getIndex());
    REQ_(tv.getMesh() == c.get(), "reinterpretTo mesh");
  }
  // mutate once more after compress (storage is exactly full now)
  if (w.m->nFaces() > 0) {
    w.m->insertVertex(w.m->face(w.m->nFaces() - 1));
    for (auto& b : w.boxes)
      if (!(e = b->check(*w.m)).empty()) return "after compress and insertVertex: " + e;
  }
  w.m.reset();
  for (auto& b : w.boxes)
    for (auto& i : b->v.items) REQ_(i.d->getMesh() == nullptr, "container of a dead mesh");
  return "";
}

// the same reference with the handles of another mesh
static Ref onMesh(const Ref& r, SurfaceMesh* m) {
  Ref c = r;
  for (auto& x : c.H)
    if (x != Halfedge()) x = Halfedge(m, x.getIndex());
  for (auto& x : c.V)
    if (x != Vertex()) x = Vertex(m, x.getIndex());
  for (auto& x : c.F)
    if (x != Face()) x = Face(m, x.getIndex());
  for (auto& x : c.B)
    if (x != BoundaryLoop()) x = BoundaryLoop(m, x.getIndex());
  return c;
}

// what toManifoldMesh() must produce: vertices and faces in index order, joined the same way
static std::string checkConverted(const Ref& r, ManifoldSurfaceMesh& m) {
  std::map<size_t, int> vo, fo;
  for (int v : r.verts()) vo[r.V[v].getIndex()] = v;
  for (int f : r.faces()) fo[r.F[f].getIndex()] = f;
  Polys p;
  Twins t;
  std::map<int, int> vn;
  int n = 0;
  for (auto& kv : vo) vn[kv.second] = n++;
  std::map<int, std::pair<int, int>> pos;
  std::vector<std::vector<int>> cyc;
  for (auto& kv : fo) {
    auto c = r.cycle([&] {
      for (int h = 0; h < r.nH(); h++)
        if (r.alive(h) && r.H[h] == r.F[kv.second].halfedge()) return h;
      return -1;
    }());
    p.emplace_back();
    for (size_t i = 0; i < c.size(); i++) {
      pos[c[i]] = {(int)cyc.size(), (int)i};
      p.back().push_back(vn[r.tail[c[i]]]);
    }
    cyc.push_back(c);
  }
  for (auto& c : cyc) {
    t.emplace_back();
    for (int h : c) t.back().push_back(r.interior(r.twin[h]) ? gen::Twin(pos[r.twin[h]]) : gen::Twin(-1, -1));
  }
  HS hs;
  std::string e = gen::manifoldFromTwins(p, t, hs);
  if (!e.empty()) return "";  // cannot be expressed (never happens for a manifold mesh)
  Ref q = Ref::from(hs);
  e = q.bindAll(m, hs);
  if (e.empty()) e = q.compare(m);
  return e;
}

// C06: compress, copies, conversions
static std::string afterCopies(World& w, int deep, Ctx& ctx) {
  std::string e;
  ManifoldSurfaceMesh& m = *w.m;
  {
    std::unique_ptr<SurfaceMesh> g = m.copyToSurfaceMesh();
    REQ_(g.get() != &m, "copy is the mesh itself");
    if (!(e = onMesh(w.r, g.get()).compare(*g)).empty()) return "copyToSurfaceMesh: " + e;
    REQ_(g->isCompressed() == m.isCompressed(), "copyToSurfaceMesh: isCompressed");
    REQ_(dynamic_cast<ManifoldSurfaceMesh*>(g.get()) != nullptr || !g->usesImplicitTwin(), "copyToSurfaceMesh: kind");
  }
  bool selfEdge = false;
  for (int h : w.r.edges()) selfEdge = selfEdge || w.r.tail[h] == w.r.tip(h);
  if (selfEdge) {
    bool threw = false;
    try {
      m.toManifoldMesh();
    } catch (const std::exception&) {
      threw = true; // polygon meshes with self-edges are rejected on construction
    }
    REQ_(threw, "toManifoldMesh of a mesh with a self-edge");
  } else {
    auto c = m.toManifoldMesh();
    if (!(e = checkConverted(w.r, *c)).empty()) return "toManifoldMesh: " + e;
    REQ_(c->isCompressed(), "toManifoldMesh: compressed");
  }
  auto fresh = [&]() {
    std::unique_ptr<World> x(new World());
    x->m = m.copy();
    x->r = onMesh(w.r, x->m.get());
    return x;
  };
  { // copy, then compress the copy
    auto x = fresh();
    if (!(e = x->r.compare(*x->m)).empty()) return "copy: " + e;
    REQ_(x->m->isCompressed() == m.isCompressed(), "copy: isCompressed");
    if (!(e = compressMesh(*x)).empty()) return "copy, compress: " + e;
    if (!(e = x->r.compare(*x->m)).empty()) return "copy, compress: " + e;
    if (!(e = w.r.compare(m)).empty()) return "original after the copy was compressed: " + e;
    if (deep) { // compressed meshes can be mutated further
      World y;
      y.m = std::move(x->m);
      y.r = x->r;
      for (auto& op : ops(y)) {
        if (legality(y.r, op) == Must::Skip) continue;
        World z;
        z.m = y.m->copy();
        z.r = onMesh(y.r, z.m.get());
        std::string out;
        e = apply(z, op, out);
        ctx.transition();
        if (!e.empty()) return cat("compressed copy, then ", str1(op), ": ", e);
      }
      if (!(e = y.r.compare(*y.m)).empty()) return "compressed copy after copies of it were mutated: " + e;
    }
  }
  if (deep) {
    for (auto& op : ops(w)) {
      if (legality(w.r, op) == Must::Skip) continue;
      auto x = fresh();
      std::string out;
      e = apply(*x, op, out);
      ctx.transition();
      if (!e.empty()) return cat("copy, then ", str1(op), ": ", e);
    }
    if (!(e = w.r.compare(m)).empty()) return "original after copies were mutated: " + e;
    // and the other way round: the copy survives mutation and death of the original
    auto x = fresh();
    if (m.nFaces() > 0) {
      Ref keep = w.r;
      m.insertVertex(w.r.F[w.r.faces()[0]]);
      w.m->compress();
      w.m.reset();
    }
    if (!(e = x->r.compare(*x->m)).empty()) return "copy after the original was mutated and deleted: " + e;
  }
  return "";
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    if (std::string(argv[i]) == "--data") g_mode = 1;
    if (std::string(argv[i]) == "--copies") g_mode = 2;
  }
  Options o;
  o.property = g_mode == 1 ? "C05" : g_mode == 2 ? "C06" : "C03";
  o.technique = "explicit-state exploration of all mutation sequences up to a depth on the real ManifoldSurfaceMesh, compared with a reference combinatorial map after every step";
  o.rule = "start meshes: every manifold gluing of few polygons and small grids/polyhedra; every operation with every argument at every step up to the depth";
  if (g_mode == 1) {
    o.technique = "explicit-state exploration of all mutation/compress sequences up to a depth with containers of every element kind and every way of making them attached before every step; every entry compared with the expected value after every step and after compress()";
    o.rule = "every path; before each of its steps 23 containers per element kind are attached (constructed, copied, moved, assigned, swapped, arithmetic results, from vectors, in a reallocating std::vector, non-trivial value types)";
  }
  if (g_mode == 2) {
    o.technique = "explicit-state exploration of all mutation/compress sequences up to a depth; in every state compress(), copies and conversions are compared with the reference map, and every further operation is run on a copy";
    o.rule = "every path; copies are mutated by every operation and the original is compared again";
  }
  o.assumptions = {"collapseEdgeTriangular is exercised on simplicial complexes only (documented precondition)"};
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    const int SH = 8; // shards of one start mesh, by first operation
    auto explore = [&](const Start& s, int depth, int shard) {
      if (g_mode) {
        depth = std::min(depth, 2);
        size_t sides = 0;
        for (auto& q : s.p) sides += q.size();
        if (sides > (th ? 40 : 14)) depth = 1;
        if (th && sides <= 6) depth = 3;
      }
      bool heavy = th;
      std::unordered_map<uint64_t, int> seen; // state -> remaining depth explored
      std::vector<Op> path;
      std::function<void()> rec = [&]() {
        World w0;
        std::string e = replay(w0, s, path);
        if (!e.empty()) {
          ctx.fail("replay:" + s.name, "replay diverged: " + e);
          return;
        }
        int left = depth - (int)path.size();
        uint64_t hs = w0.r.hash();
        auto it = seen.find(hs);
        if (g_mode != 1 && it != seen.end() && it->second >= left) return;
        seen[hs] = left;
        ctx.state(mix(hashStr(s.name), hs));
        if (!left) return;
        int oi = 0;
        for (auto& op : ops(w0)) {
          int oj = oi++;
          if (path.empty() && (oj + oj / SH) % SH != shard) continue;
          if (legality(w0.r, op) == Must::Skip) continue;
          World w;
          replay(w, s, path);
          std::string p;
          for (auto& q : path) p += str1(q) + " ";
          ctx.note(cat(s.name, " ", gen::str(s.t), mc::str(s.p), " ", p, str1(op)));
          std::string out;
          if (g_mode == 1) w.boxes.emplace_back(new Attached(*w.m));
          e = apply(w, op, out);
          ctx.transition();
          if (e.empty() && g_mode == 1) e = afterData(w);
          if (e.empty() && g_mode == 2 && out == "done") e = afterCopies(w, path.empty() || heavy, ctx);
          ctx.outcome(cat(kindName[op.k], " ", out));
          if (!e.empty()) {
            ctx.fail(cat(kindName[op.k], "@", s.name, ":", p, str1(op)), cat("mesh ", mc::str(s.p), gen::str(s.t), ": ", p, "then ", str1(op), ": ", e));
            continue;
          }
          if (out == "done") {
            path.push_back(op);
            rec();
            path.pop_back();
          }
          ctx.trace();
        }
      };
      rec();
    };
    auto startPolys = [&](const std::string& nm, const Polys& p, int depth) {
      for (int k = 0; k < SH; k++) {
        if (!ctx.begin(cat(nm, "/", k))) continue;
        Start s{nm, p, {}};
        World w;
        std::string e = w.start(s);
        if (!e.empty()) {
          ctx.fail("start:" + nm, e);
          return;
        }
        explore(s, depth, k);
      }
    };
    auto startGlue = [&](const std::vector<int>& d, int depth) {
      int k = 0;
      gen::gluings(d, [&](const Polys& p, const Twins& t) {
        HS hs;
        if (!gen::manifoldFromTwins(p, t, hs).empty()) return;
        int id = k++;
        for (int k = 0; k < SH; k++) {
          if (!ctx.beginf([&] { return cat("glue", mc::str(d), "#", id, "/", k); })) continue;
          explore(Start{cat("glue", mc::str(d), "#", id), p, t}, depth, k);
        }
      });
    };
    startPolys("tri", {{0, 1, 2}}, th ? 4 : 3);
    startPolys("quad", {{0, 1, 2, 3}}, 3);
    startPolys("pent", {{0, 1, 2, 3, 4}}, 2);
    startPolys("hex", {{0, 1, 2, 3, 4, 5}}, 2);
    startPolys("two", {{0, 1, 2}, {2, 1, 3}}, th ? 4 : 3);
    startPolys("quadtri", {{0, 1, 2, 3}, {2, 1, 4}}, th ? 3 : 2);
    startPolys("tetra", gen::tetra(), 3);
    startPolys("tetra-1", gen::withoutFace(gen::tetra(), 0), 3);
    startPolys("fan4", gen::closedFan(4), 3);
    startPolys("fan5", gen::closedFan(5), 2);
    startPolys("openfan4", gen::openFan(4), 2);
    startPolys("bipyr3", gen::bipyramid(3), th ? 3 : 2);
    startPolys("octa", gen::bipyramid(4), 2);
    startPolys("octa-1", gen::withoutFace(gen::bipyramid(4), 0), 2);
    startPolys("octa-2", gen::withoutFace(gen::withoutFace(gen::bipyramid(4), 0), 4), 2);
    startPolys("cube", gen::cube(), 2);
    startPolys("cube-2", gen::withoutFace(gen::withoutFace(gen::cube(), 0), 0), 2);
    startPolys("grid22", gen::grid(2, 2, 3), 2);
    startPolys("grid33", gen::grid(3, 3, 1), th ? 2 : 1);
    startPolys("quadgrid33", gen::grid(3, 3, 0), th ? 2 : 1);
    startPolys("torus33", gen::grid(3, 3, 2, true, true), th ? 2 : 1);
    startPolys("annulus", gen::grid(3, 1, 1, true, false), 2);
    startPolys("annulus2", gen::grid(4, 2, 3, true, false), th ? 2 : 1);
    startPolys("twocomp", gen::disjointUnion(gen::closedFan(3), gen::openFan(2)), 2);
    startGlue({3}, 3);
    startGlue({4}, 3);
    startGlue({5}, 2);
    startGlue({3, 3}, th ? 3 : 2);
    startGlue({3, 4}, th ? 3 : 2);
    startGlue({3, 3, 3}, th ? 2 : 1);
    if (th) startGlue({3, 3, 3, 3}, 1);
  });
}
