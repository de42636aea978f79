// C20: words of MutationManager operations with callbacks, constraints and geometry, against the bare mesh operation on a
// copy. C22 (--quadric): quadric error simplification observed collapse by collapse. C35 (--remesh): smoothing, flipping and
// length adjustment against their formulas, observed through callbacks.
#include "suite.h"
#include "geometrycentral/surface/quadric_error_simplification.h"
#include "geometrycentral/surface/remeshing.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using geometrycentral::PI;

static std::vector<size_t> rot(std::vector<size_t> f) {
  std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end());
  return f;
}
typedef std::vector<std::pair<size_t, std::vector<size_t>>> Snap; // (face, corners)
static Snap snap(ManifoldSurfaceMesh& m) {
  Snap s;
  for (Face f : m.faces()) {
    std::vector<size_t> t;
    for (Vertex v : f.adjacentVertices()) t.push_back(v.getIndex());
    s.push_back({f.getIndex(), rot(t)});
  }
  return s;
}
static std::string show(const Snap& s) {
  std::string r;
  for (auto& f : s) r += cat("f", f.first, mc::str(f.second), " ");
  return r;
}
static double nearest(Vector3 p, Vector3 a, Vector3 b) {
  Vector3 d = b - a;
  return std::max(0., std::min(1., dot(p - a, d) / dot(d, d)));
}
// ------------------------------------------------------------------------------------------------ C20
struct Log {
  std::vector<std::string> l;
  std::vector<Snap> at;
};
struct All : public VertexRepositionPolicy, public EdgeFlipPolicy, public EdgeSplitPolicy, public EdgeCollapsePolicy, public FaceSplitPolicy {
  std::string n;
  Log& log;
  ManifoldSurfaceMesh& m;
  bool* dead;
  All(std::string n_, Log& l, ManifoldSurfaceMesh& m_, bool* d) : n(n_), log(l), m(m_), dead(d) {}
  ~All() { *dead = true; }
  void put(std::string s) {
    log.l.push_back(n + s);
    log.at.push_back(snap(m));
  }
  void beforeVertexReposition(const Vertex& v, const Vector3& d) override { put(cat(" before reposition ", v, d)); }
  void beforeEdgeFlip(const Edge& e) override { put(cat(" before flip ", e)); }
  void afterEdgeFlip(const Edge& e) override { put(cat(" after flip ", e)); }
  void beforeEdgeSplit(const Edge& e, const double& t) override { put(cat(" before split ", e, " ", (float)t)); }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override { put(cat(" after split ", a, " ", b, " ", (float)t)); }
  void beforeEdgeCollapse(const Edge& e, const double& t) override { put(cat(" before collapse ", e, " ", (float)t)); }
  void afterEdgeCollapse(const Vertex& v, const double& t) override { put(cat(" after collapse ", v, " ", (float)t)); }
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override { put(cat(" before face ", f, mc::str(b))); }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override { put(cat(" after face ", v, mc::str(b))); }
};
struct Op {
  char kind; // r f s S c C x
  size_t i;
};
struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
};
static const char* opName(char k) { return k == 'r' ? "repositionVertex" : k == 'f' ? "flipEdge" : k == 's' ? "splitEdge(t)" : k == 'S' ? "splitEdge(position)" : k == 'c' ? "collapseEdge(t)" : k == 'C' ? "collapseEdge(position)" : "splitFace"; }

struct World {
  Case& c;
  bool withGeometry;
  int cons; // bit mask of constrained categories
  geo::Emb e;
  std::unique_ptr<MutationManager> mm;
  Log log;
  bool dead[3] = {false, false, false};
  std::vector<std::string> simple, simpleWant; // the simple handlers
  ManifoldSurfaceMesh* m;
  std::vector<MutationPolicyHandle> handles;
  World(Case& c_, const geo::Shape& s, bool wg, int cn) : c(c_), withGeometry(wg), cons(cn), e(geo::manifold(s.P, s.p)) {
    m = e.mesh.get();
    mm.reset(wg ? new MutationManager(*m, *e.geom) : new MutationManager(*m));
    for (int k = 0; k < 3; k++) handles.push_back(mm->registerPolicy(new All(cat("P", k), log, *m, &dead[k])));
    if (cons & 1) {
      VertexData<bool> d(*m, true);
      for (Vertex v : m->vertices()) d[v] = v.getIndex() % 3 != 1;
      mm->setRepositionableVertices(d, (cons & 32) == 0);
    }
    EdgeData<bool> d(*m, true);
    auto pat = [&](size_t q) {
      for (Edge e : m->edges()) d[e] = (e.getIndex() * 5 + q) % 3 != 1;
    };
    pat(0);
    if (cons & 2) mm->setSplittableEdges(d, (cons & 32) == 0);
    pat(1);
    if (cons & 4) mm->setCollapsibleEdges(d, (cons & 32) == 0);
    pat(2);
    if (cons & 8) mm->setFlippableEdges(d, (cons & 32) == 0);
    if (cons & 16) {
      FaceData<bool> d(*m, true);
      for (Face f : m->faces()) d[f] = f.getIndex() % 2 == 0;
      mm->setSplittableFaces(d, (cons & 32) == 0);
    }
  }
  // the simple handlers, one of each kind
  void handlers() {
    auto add = [this](std::string s) { simple.push_back(s); };
    mm->registerEdgeFlipHandlers([](Edge e) -> size_t { return e.getIndex(); }, [add](Edge e, size_t x) { add(cat("flip ", e.getIndex(), " ", x)); });
    mm->registerEdgeFlipPreHandler([add](Edge e) { add(cat("flip pre ", e.getIndex())); });
    mm->registerEdgeFlipPostHandler([add](Edge e) { add(cat("flip post ", e.getIndex())); });
    mm->registerEdgeSplitHandlers([](Edge e, double t) -> double { return e.getIndex() + 100 * t; }, [add](Halfedge a, Halfedge b, double t, double x) { add(cat("split ", a.getIndex(), " ", b.getIndex(), " ", (float)t, " ", (float)x)); });
    mm->registerEdgeSplitPreHandler([add](Edge e, double t) { add(cat("split pre ", e.getIndex(), " ", (float)t)); });
    mm->registerEdgeSplitPostHandler([add](Halfedge a, Halfedge b, double t) { add(cat("split post ", a.getIndex(), " ", b.getIndex(), " ", (float)t)); });
    mm->registerFaceSplitHandlers([](Face f, std::vector<double> b) -> double { return f.getIndex() + b[0]; }, [add](Vertex v, double x) { add(cat("face ", v.getIndex(), " ", (float)x)); });
    mm->registerFaceSplitPreHandler([add](Face f, std::vector<double> b) { add(cat("face pre ", f.getIndex(), " ", b[1])); });
    mm->registerFaceSplitPostHandler([add](Vertex v) { add(cat("face post ", v.getIndex())); });
    mm->registerEdgeCollapseHandlers([](Edge e, double t) -> double { return e.getIndex() + 100 * t; }, [add](Vertex v, double t, double x) { add(cat("collapse ", v.getIndex(), " ", (float)t, " ", (float)x)); });
    mm->registerEdgeCollapsePreHandler([add](Edge e, double t) { add(cat("collapse pre ", e.getIndex(), " ", (float)t)); });
    mm->registerEdgeCollapsePostHandler([add](Vertex v, double t) { add(cat("collapse post ", v.getIndex(), " ", (float)t)); });
  }
  std::vector<Op> enabled(bool all) {
    std::vector<Op> r;
    for (size_t i = 0; i < m->nVertices(); i++) r.push_back({'r', i});
    for (size_t i = 0; i < m->nEdges(); i++)
      for (char k : std::string(withGeometry ? "fsScC" : "fsc")) r.push_back({k, i});
    for (size_t i = 0; i < m->nFaces(); i++) r.push_back({'x', i});
    (void)all;
    if (!withGeometry) r.erase(std::remove_if(r.begin(), r.end(), [](Op o) { return o.kind == 'r'; }), r.end());
    return r;
  }
  template <typename D, typename E>
  static bool may(const D& d, E e) {
    return d.size() == 0 || d[e];
  }
  bool step(Op o, bool removed) { // returns false if the operation was not possible
    Vertex v;
    Edge ed;
    Face f;
    size_t k = 0;
    if (o.kind == 'r') {
      for (Vertex x : m->vertices())
        if (k++ == o.i) v = x;
    } else if (o.kind == 'x') {
      for (Face x : m->faces())
        if (k++ == o.i) f = x;
    } else
      for (Edge x : m->edges())
        if (k++ == o.i) ed = x;
    if (ed != Edge() && (o.kind == 'S' || o.kind == 'C') && norm(e.geom->vertexPositions[ed.firstVertex()] - e.geom->vertexPositions[ed.secondVertex()]) < 1e-9) return false; // no nearest point
    std::string op = cat(opName(o.kind), " of ", o.kind == 'r' ? cat(v) : o.kind == 'x' ? cat(f) : cat(ed), cons ? cat(" constraints ", cons) : std::string());
    std::string key = opName(o.kind);
    auto& pos = e.geom->vertexPositions;
    VertexData<Vector3> old = pos;
    std::unique_ptr<ManifoldSurfaceMesh> cp = m->copy();
    Snap before = snap(*m);
    Vertex tail, tip;
    Vector3 A{0, 0, 0}, B{0, 0, 0};
    if (ed != Edge()) {
      tail = ed.halfedge().tailVertex();
      tip = ed.halfedge().tipVertex();
      A = pos[tail];
      B = pos[tip];
    }
    log.l.clear();
    log.at.clear();
    simple.clear();
    simpleWant.clear();
    std::vector<std::string> pre, post;
    // constraints, by index (deleted elements keep their value)
    bool mayV = v == Vertex() || may(mm->repositionableVertices, v), mayS = true, mayC = true, mayF = true, mayX = true;
    if (ed != Edge()) {
      mayS = may(mm->splittableEdges, ed);
      mayF = may(mm->flippableEdges, ed);
      mayC = may(mm->collapsibleEdges, ed) && may(mm->repositionableVertices, tail) && may(mm->repositionableVertices, tip);
      if (mm->maySplitEdge(ed) != mayS || mm->mayFlipEdge(ed) != mayF || mm->mayCollapseEdge(ed) != mayC) c.bad("may...Edge", op);
    }
    if (f != Face()) {
      mayX = may(mm->splittableFaces, f);
      if (mm->maySplitFace(f) != mayX) c.bad("maySplitFace", op);
    }
    if (v != Vertex() && mm->mayRepositionVertex(v) != mayV) c.bad("mayRepositionVertex", op);
    c.ctx.transition();
    bool done = false;
    Snap want = before;
    if (o.kind == 'r') {
      Vector3 d{.1, -.2, .3 + o.i};
      done = mm->repositionVertex(v, d);
      if (done != mayV) c.bad(key + " ignores the constraint", op);
      if (done) {
        pre.push_back(cat(" before reposition ", v, d));
        old[v] += d;
      }
    } else if (o.kind == 'f') {
      bool can = mayF && cp->flip(cp->edge(ed.getIndex()));
      done = mm->flipEdge(ed);
      if (done != can) {
        c.bad(key + " result", cat(op, " returns ", done));
        return false;
      }
      if (done) {
        want = snap(*cp);
        pre.push_back(cat(" before flip ", ed));
        post.push_back(cat(" after flip ", ed));
        size_t i = ed.getIndex();
        simpleWant = {cat("flip pre ", i), cat("flip ", i, " ", i), cat("flip post ", i)};
      }
    } else if (o.kind == 's' || o.kind == 'S') {
      double t = o.i % 4 == 0 ? 0. : .25 * (o.i % 5);
      Vector3 p = A + t * (B - A);
      if (o.kind == 'S') {
        p = A + (o.i % 3 ? .3 : 1.4) * (B - A) + Vector3{.1, .05, -.07};
        t = nearest(p, A, B);
      }
      // not interior to a closed pair of the same face
      Halfedge h = o.kind == 's' ? mm->splitEdge(ed, t) : mm->splitEdge(ed, p);
      done = h != Halfedge();
      if (done != mayS) {
        c.bad(key + " result", cat(op, " returns ", h));
        return false;
      }
      if (done) {
        Halfedge h2 = cp->splitEdgeTriangular(cp->edge(ed.getIndex()));
        want = snap(*cp);
        if (h.getIndex() != h2.getIndex()) c.bad(key + " halfedge", cat(op, " returns ", h, " rather than ", h2));
        if (h.tipVertex() != tip) c.bad(key + " halfedge direction", op);
        Halfedge back; // from the new vertex to the old tail, along the split edge
        for (Halfedge x : h.vertex().outgoingHalfedges())
          if (x.tipVertex() == tail) back = x;
        pre.push_back(cat(" before split ", ed, " ", (float)t));
        post.push_back(cat(" after split ", h, " ", back, " ", (float)t));
        if (withGeometry) old[h.vertex()] = p;
        size_t i = ed.getIndex();
        simpleWant = {cat("split pre ", i, " ", (float)t), cat("split ", h.getIndex(), " ", back.getIndex(), " ", (float)t, " ", (float)(i + 100 * t)), cat("split post ", h.getIndex(), " ", back.getIndex(), " ", (float)t)};
        // the constraints are inherited by both halves
        for (Halfedge x : {h, back}) {
          if (may(mm->splittableEdges, x.edge()) != mayS) c.bad("splittable is not inherited", op);
          if (may(mm->flippableEdges, x.edge()) != mayF) c.bad("flippable is not inherited", op);
        }
        if (mm->collapsibleEdges.size()) {
          // (the value the edge was cached with includes its vertices)
          for (Halfedge x : {h, back})
            if (mm->collapsibleEdges[x.edge()] != mayC) c.bad("collapsible is not inherited", op);
        }
        bool def = (cons & 32) == 0;
        for (Edge x : h.vertex().adjacentEdges()) {
          if (x == h.edge() || x == back.edge()) continue;
          if ((cons & 2 && mm->splittableEdges[x] != def) || (cons & 4 && mm->collapsibleEdges[x] != def) || (cons & 8 && mm->flippableEdges[x] != def)) c.bad("constraint default of new edges", op);
        }
        if (cons & 1 && mm->repositionableVertices[h.vertex()] != def) c.bad("constraint default of new vertices", op);
      }
    } else if (o.kind == 'c' || o.kind == 'C') {
      double t = .25 * (o.i % 5);
      Vector3 p = A + t * (B - A);
      if (o.kind == 'C') {
        p = A + (o.i % 3 ? .3 : -.4) * (B - A) + Vector3{.1, .05, -.07};
        t = nearest(p, A, B);
      }
      Vertex w, w2;
      if (mayC) w2 = cp->collapseEdgeTriangular(cp->edge(ed.getIndex()));
      w = o.kind == 'c' ? mm->collapseEdge(ed, t) : mm->collapseEdge(ed, p);
      done = w != Vertex();
      if (done != (w2 != Vertex())) {
        c.bad(key + " result", cat(op, " returns ", w));
        return false;
      }
      if (mayC) {
        pre.push_back(cat(" before collapse ", ed, " ", (float)t)); // announced although it may then turn out to be impossible
        simpleWant.push_back(cat("collapse pre ", ed.getIndex(), " ", (float)t));
      }
      if (done) {
        want = snap(*cp);
        if (w.getIndex() != w2.getIndex()) c.bad(key + " vertex", op);
        post.push_back(cat(" after collapse ", w, " ", (float)t));
        if (withGeometry) old[w] = p;
        simpleWant.push_back(cat("collapse ", w.getIndex(), " ", (float)t, " ", (float)(ed.getIndex() + 100 * t)));
        simpleWant.push_back(cat("collapse post ", w.getIndex(), " ", (float)t));
      }
    } else {
      std::vector<double> b{.2, .5, .3};
      Vector3 p{0, 0, 0};
      size_t i = 0;
      for (Vertex x : f.adjacentVertices()) p += b[i++] * pos[x];
      size_t fi = f.getIndex();
      Vertex w = o.i % 2 && withGeometry ? mm->splitFace(f, b, p = p + Vector3{0, .1, .2}) : mm->splitFace(f, b);
      done = w != Vertex();
      if (done != mayX) {
        c.bad(key + " result", op);
        return false;
      }
      if (done) {
        Vertex w2 = cp->insertVertex(cp->face(fi));
        want = snap(*cp);
        if (w.getIndex() != w2.getIndex()) c.bad(key + " vertex", op);
        pre.push_back(cat(" before face ", f, mc::str(b)));
        post.push_back(cat(" after face ", w, mc::str(b)));
        if (withGeometry) old[w] = p;
        simpleWant = {cat("face pre ", fi, " ", b[1]), cat("face ", w.getIndex(), " ", (float)(fi + b[0])), cat("face post ", w.getIndex())};
        bool def = (cons & 32) == 0;
        if (cons & 16)
          for (Face x : w.adjacentFaces())
            if (x.getIndex() != fi && mm->splittableFaces[x] != def) c.bad("constraint default of new faces", op);
      }
    }
    Snap after = snap(*m);
    if (after != want) c.bad(key + " connectivity", cat(op, " gives ", show(after), " the mesh operation ", show(want)));
    try {
      m->validateConnectivity();
    } catch (std::exception& x) {
      c.bad(key + " validity", cat(op, x.what()));
      return false;
    }
    // callbacks: each policy once before (in the old mesh) and once after (in the new mesh)
    std::vector<std::string> wl;
    size_t np = removed ? 2 : 3;
    for (auto& s : pre)
      for (size_t q = 0; q < 3; q++)
        if (!(removed && q == 1)) wl.push_back(cat("P", q) + s);
    for (auto& s : post)
      for (size_t q = 0; q < 3; q++)
        if (!(removed && q == 1)) wl.push_back(cat("P", q) + s);
    std::vector<std::string> gotL = log.l, wantL = wl;
    std::sort(gotL.begin(), gotL.end());
    std::sort(wantL.begin(), wantL.end());
    if (gotL != wantL) {
      std::string a, b;
      for (auto& s : log.l) a += s + "; ";
      for (auto& s : wl) b += s + "; ";
      c.bad(key + " callbacks", cat(op, ": ", a, " should be ", b));
    } else {
      for (size_t q = 0; q < log.l.size(); q++) {
        bool isPre = log.l[q].find(" before ") != std::string::npos;
        if (isPre && log.at[q] != before) c.bad(key + " callback before sees another mesh", op);
        if (!isPre && log.at[q] != want) c.bad(key + " callback after sees another mesh", op);
        if (isPre != (q < pre.size() * np)) c.bad(key + " callback order", op);
      }
    }
    std::vector<std::string> s1 = simple, s2 = simpleWant;
    std::sort(s1.begin(), s1.end());
    std::sort(s2.begin(), s2.end());
    if (o.kind != 'r' && s1 != s2) {
      std::string a, b;
      for (auto& s : s1) a += s + "; ";
      for (auto& s : s2) b += s + "; ";
      c.bad(key + " handlers", cat(op, ": ", a, " should be ", b));
    }
    for (Vertex x : m->vertices())
      if (!(norm(pos[x] - old[x]) < 1e-12)) {
        c.bad(key + " position", cat(op, " puts ", x, " to ", pos[x], " rather than ", old[x]));
        break;
      }
    c.ctx.outcome(cat(opName(o.kind), done ? "" : " refused"));
    return done;
  }
};
static bool simplicial(ManifoldSurfaceMesh& m) {
  std::set<std::pair<size_t, size_t>> E;
  for (Edge e : m.edges()) {
    size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
    if (a == b || !E.insert({std::min(a, b), std::max(a, b)}).second) return false;
  }
  return true;
}
static void words(Ctx& ctx, const geo::Shape& s, size_t depth, bool wg, int cons, bool remove) {
  size_t n0;
  {
    Case c{ctx, "", {}};
    World w(c, s, wg, cons);
    n0 = w.enabled(true).size();
  }
  for (size_t first = 0; first < n0; first++) {
    std::string id = cat(s.name, wg ? "" : "-bare", cons ? cat("-cons", cons) : "", remove ? "-rm" : "", "-", first);
    if (!ctx.begin(id)) continue;
    Case c{ctx, id, {}};
    // depth-first over all continuations, replaying the prefix
    std::vector<size_t> word{first};
    while (true) {
      World w(c, s, wg, cons);
      w.handlers();
      bool removed = false, alive = true;
      size_t done = 0;
      std::vector<size_t> sizes;
      for (size_t i : word) {
        auto ops = w.enabled(true);
        sizes.push_back(ops.size());
        if (!simplicial(*w.m)) { // collapses and splits are judged on simplicial meshes
          alive = false;
          break;
        }
        done++;
        bool ok = w.step(ops[i], removed);
        ctx.trace();
        if (!ok && !(remove && i == first)) alive = false;
        if (!alive) break;
        if (remove && !removed) {
          w.handles[1].remove();
          removed = true;
          if (!w.dead[1] || w.dead[0] || w.dead[2]) c.bad("removed policy is not destroyed", "");
        }
      }
      std::string h;
      for (auto& f : snap(*w.m)) h += mc::str(f.second);
      ctx.state(hashStr(h + s.name));
      w.mm.reset();
      if (!w.dead[0] || !w.dead[1] || !w.dead[2]) c.bad("policy not destroyed with its manager", "");
      // next word
      if (alive && word.size() < depth && simplicial(*w.m) && w.enabled(true).size()) {
        word.push_back(0);
        continue;
      }
      word.resize(done);
      while (word.size() > 1) {
        size_t step = word.size() == 2 ? 1 : 3;
        if (word.back() + step < sizes[word.size() - 1]) {
          word.back() += step;
          break;
        }
        word.pop_back();
      }
      if (word.size() <= 1) break;
    }
    ctx.eval();
  }
}
static void manager(Ctx& ctx, bool T) {
  using namespace geo;
  std::vector<Shape> S{tetrahedron(), octahedron(), planarGrid(1, 1, 1), planarGrid(2, 1, 1), suite::fan(3, 2), suite::cone(4, .5)};
  if (T) {
    S.push_back(planarGrid(2, 2, 1));
    S.push_back(cylinder(3, 1, 2));
  }
  for (size_t i = 0; i < S.size(); i++) {
    words(ctx, S[i], T && i >= 2 && i < 5 ? 3 : 2, true, 0, false);
    words(ctx, S[i], T ? 2 : 1, false, 0, false);
    words(ctx, S[i], 2, true, 0, true);
    for (int b = 0; b < 5; b++)
      for (int d = 0; d < 2; d++) words(ctx, S[i], 2, true, (1 << b) | (d << 5), false);
    for (int b : {31, 63, 3, 5, 37, 14}) words(ctx, S[i], 2, b != 14, b, false);
  }
}
// ------------------------------------------------------------------------------------------------ C22
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
static V3 ev(Vector3 v) { return V3(v.x, v.y, v.z); }
struct Q {
  M3 A = M3::Zero();
  V3 b = V3::Zero();
  double c = 0;
  double at(V3 x) const { return x.dot(A * x) + 2 * b.dot(x) + c; }
  Q operator+(const Q& o) const {
    Q r;
    r.A = A + o.A;
    r.b = b + o.b;
    r.c = c + o.c;
    return r;
  }
  double least() const { // the smallest value; sets `flat` if the minimum is (nearly) not unique
    Eigen::SelfAdjointEigenSolver<M3> s(A);
    V3 d = s.eigenvectors().transpose() * b;
    double r = c;
    for (int i = 0; i < 3; i++)
      if (s.eigenvalues()[i] > 1e-9) r -= d[i] * d[i] / s.eigenvalues()[i];
    return r;
  }
  V3 closest(V3 p, bool& unclear) const { // the minimizer nearest to p
    Eigen::SelfAdjointEigenSolver<M3> s(A);
    V3 g = s.eigenvectors().transpose() * (A * p + b);
    V3 d = V3::Zero();
    for (int i = 0; i < 3; i++) {
      double w = s.eigenvalues()[i];
      if (w > 1e-4) d -= g[i] / w * s.eigenvectors().col(i);
      else if (w > 1e-12) unclear = true;
    }
    return p + d;
  }
};
static bool collapsible(ManifoldSurfaceMesh& m, Edge e) {
  auto cp = m.copy();
  return cp->collapseEdgeTriangular(cp->edge(e.getIndex())) != Vertex();
}
static void quadric(Ctx& ctx, const geo::Shape& sh, double tol, Vector3 shift, bool constrained) {
  std::string id = cat(sh.name, "-tol", tol, shift.x != 0 ? "-moved" : "", constrained ? "-constrained" : "");
  if (!ctx.begin(id)) return;
  Case c{ctx, id, {}};
  ctx.state(hashStr(id));
  geo::Pts p = sh.p;
  for (auto& x : p) x += shift;
  auto e = geo::manifold(sh.P, p);
  auto& m = *e.mesh;
  auto& pos = e.geom->inputVertexPositions;
  int chi = (int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces();
  size_t loops = m.nBoundaryLoops();
  VertexData<Q> q(m);
  for (Face f : m.faces()) {
    std::vector<V3> x;
    for (Vertex v : f.adjacentVertices()) x.push_back(ev(pos[v]));
    V3 n = (x[1] - x[0]).cross(x[2] - x[0]).normalized();
    Q k;
    k.A = n * n.transpose();
    k.b = -n.dot(x[0]) * n;
    k.c = n.dot(x[0]) * n.dot(x[0]);
    for (Vertex v : f.adjacentVertices()) q[v] = q[v] + k;
  }
  MutationManager mm(m, *e.geom);
  EdgeData<bool> col(m, true);
  if (constrained) {
    for (Edge x : m.edges()) col[x] = x.getIndex() % 3 != 0;
    mm.setCollapsibleEdges(col);
  }
  size_t n = 0;
  Q qe;
  V3 want;
  bool unclear = false;
  EdgeData<char> refused(m, 0); // announced, but not collapsible at that time: tried again only when its ends change
  double diam = 0;
  for (auto& a : p)
    for (auto& b : p) diam = std::max(diam, norm(a - b));
  mm.registerEdgeCollapsePreHandler([&](Edge x, double) {
    Vertex a = x.firstVertex(), b = x.secondVertex();
    qe = q[a] + q[b];
    if (constrained && !col[x]) c.bad("collapses an edge which must not be", cat(x));
    double cost = qe.least();
    if (cost > tol + 1e-7) c.bad("collapse above the tolerance", cat(x, " costs ", cost));
    // no collapsible edge is clearly cheaper
    for (Edge y : m.edges()) {
      double k = (q[y.firstVertex()] + q[y.secondVertex()]).least();
      if (k < cost - 1e-6 && !refused[y] && (!constrained || col[y])) {
        auto cp = m.copy();
        if (cp->collapseEdgeTriangular(cp->edge(y.getIndex())) != Vertex()) {
          c.bad("a cheaper edge is passed over", cat(x, " costs ", cost, ", ", y, " costs ", k));
          break;
        }
      }
    }
    refused[x] = 1;
    unclear = false;
    want = qe.closest(.5 * (ev(pos[a]) + ev(pos[b])), unclear);
  });
  Vertex last;
  mm.registerEdgeCollapsePostHandler([&](Vertex v, double) {
    n++;
    ctx.transition();
    V3 got = ev(pos[v]);
    if (!(qe.at(got) < qe.least() + 1e-6 * (1 + diam * diam))) c.bad("collapse not to a point of least error", cat("error ", qe.at(got), " rather than ", qe.least()));
    if (!unclear && !((got - want).norm() < 1e-5 * (1 + diam))) c.bad("collapse far from the edge", cat("to ", pos[v], " rather than ", Vector3{want[0], want[1], want[2]}));
    q[v] = qe;
    for (Edge x : v.adjacentEdges()) refused[x] = 0;
  });
  quadricErrorSimplify(m, *e.geom, tol, mm);
  try {
    m.validateConnectivity();
  } catch (std::exception& x) {
    c.bad("invalid mesh", x.what());
    return;
  }
  if (!m.isCompressed()) c.bad("not compressed", "");
  if ((int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces() != chi || m.nBoundaryLoops() != loops) c.bad("topology", "changed");
  for (Vertex v : m.vertices())
    if (!isfinite(pos[v])) c.bad("position", "not finite");
  // nothing cheap is left
  if (m.nFaces() < 4000) {
    for (Edge y : m.edges()) {
      double k = (q[y.firstVertex()] + q[y.secondVertex()]).least();
      if (k < tol - 1e-6 && !refused[y] && (!constrained || col[y]) && collapsible(m, y)) {
        c.bad("a cheap edge is left", cat(y, " costs ", k));
        break;
      }
    }
  }
  e.geom->unrequireVertexPositions();
  e.geom->purgeQuantities();
  if (e.geom->faceNormals.size()) c.bad("quantities", "face normals stay required");
  ctx.outcome(n == 0 ? "no collapse" : n < 5 ? "some collapses" : "many collapses");
  ctx.eval();
}
// ------------------------------------------------------------------------------------------------ C35
static double angleAt(Vector3 a, Vector3 b, Vector3 c) { return std::atan2(norm(cross(b - a, c - a)), dot(b - a, c - a)); }
struct Rem {
  Case& c;
  ManifoldSurfaceMesh& m;
  VertexPositionGeometry& g;
  bool planar;
  double delSum(Edge e) {
    double s = 0;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) s += angleAt(g.vertexPositions[h.next().tipVertex()], g.vertexPositions[h.tailVertex()], g.vertexPositions[h.tipVertex()]);
    return s;
  }
  void leaks(const char* what) {
    g.unrequireVertexPositions();
    g.purgeQuantities();
    g.faceAreas = FaceData<double>();
    g.vertexDualAreas = g.vertexMeanCurvatures = VertexData<double>();
    g.edgeLengths = EdgeData<double>();
    g.faceNormals = FaceData<Vector3>();
    g.refreshQuantities(); // computes what is still required
    if (g.faceAreas.size() || g.vertexDualAreas.size() || g.vertexMeanCurvatures.size() || g.edgeLengths.size() || g.faceNormals.size()) c.bad(cat(what, ": quantities stay required"), cat(g.faceAreas.size(), " ", g.vertexDualAreas.size(), " ", g.vertexMeanCurvatures.size(), " ", g.edgeLengths.size(), " ", g.faceNormals.size()));
    g.requireVertexPositions();
  }
  void flips(bool constrained) {
    bool already = true, strict = true;
    for (Edge e : m.edges())
      if (!e.isBoundary()) {
        already &= delSum(e) < PI + 1e-9;
        strict &= delSum(e) < PI - 1e-9;
      }
    MutationManager mm(m, g);
    EdgeData<bool> fl(m, true);
    if (constrained)
      for (Edge e : m.edges()) fl[e] = e.getIndex() % 3 != 0;
    if (constrained) mm.setFlippableEdges(fl);
    size_t n = 0;
    mm.registerEdgeFlipPreHandler([&](Edge e) {
      n++;
      if (!(delSum(e) > PI - 1e-4)) c.bad("fixDelaunay flips a Delaunay edge", cat(e, " angle sum ", delSum(e)));
      if (constrained && !fl[e]) c.bad("fixDelaunay flips a fixed edge", cat(e));
    });
    double area = 0;
    for (Face f : m.faces()) area += g.faceArea(f);
    c.ctx.transition();
    size_t r = fixDelaunay(m, g, mm);
    if (r != n) c.bad("fixDelaunay result", cat(r, " for ", n, " flips"));
    if (already && r) c.bad("fixDelaunay flips in a Delaunay triangulation", cat(r, " times", strict ? "" : ", with cocircular points"));
    m.validateConnectivity();
    if (r >= 100 * m.nVertices() && planar) c.bad("fixDelaunay does not finish", cat(r));
    if (planar) {
      double a2 = 0;
      for (Face f : m.faces()) a2 += g.faceArea(f);
      if (std::abs(area - a2) > 1e-9 * (1 + area)) c.bad("fixDelaunay folds a planar mesh", "");
      for (Edge e : m.edges())
        if (!e.isBoundary() && (!constrained || fl[e]) && delSum(e) > PI + 1e-4) c.bad("fixDelaunay leaves a planar edge", cat(e));
    }
    leaks("fixDelaunay");
    c.ctx.outcome(r ? "flipped" : "not flipped");
  }
  Vector3 normal(Vertex v) {
    Vector3 n{0, 0, 0};
    for (Halfedge h : v.outgoingHalfedges())
      if (h.isInterior()) {
        Vector3 a = g.vertexPositions[v], b = g.vertexPositions[h.tipVertex()], d = g.vertexPositions[h.next().tipVertex()];
        Vector3 k = cross(b - a, d - a);
        n += angleAt(a, b, d) * k / norm(k);
      }
    return n;
  }
  void smooth(bool lap, int bc, double step, int cons) {
    VertexData<Vector3> want = g.vertexPositions;
    EdgeData<bool> fl(m, true);
    VertexData<bool> mv(m, true);
    if (cons)
      for (Edge e : m.edges()) fl[e] = e.getIndex() % 4 != 0;
    if (cons)
      for (Vertex v : m.vertices()) mv[v] = v.getIndex() % 3 != 0;
    VertexData<char> skip(m, 0);
    double total = 0;
    bool anySkip = false;
    for (Vertex v : m.vertices()) {
      Vector3 p = g.vertexPositions[v], dir{0, 0, 0};
      if (lap) {
        size_t n = 0;
        for (Vertex w : v.adjacentVertices()) {
          dir += g.vertexPositions[w];
          n++;
        }
        dir = dir / (double)n - p;
      } else {
        double A = 0;
        for (Face f : v.adjacentFaces()) {
          std::vector<Vector3> x;
          bool fixed = false;
          for (Vertex w : f.adjacentVertices()) x.push_back(g.vertexPositions[w]);
          for (Edge e : f.adjacentEdges()) fixed |= e.isBoundary() || !fl[e];
          double ar = .5 * norm(cross(x[1] - x[0], x[2] - x[0]));
          Vector3 ce;
          if (fixed) ce = (x[0] + x[1] + x[2]) / 3.;
          else {
            Vector3 a = x[1] - x[0], b = x[2] - x[0], n = cross(a, b);
            ce = x[0] + (dot(a, a) * cross(b, n) + dot(b, b) * cross(n, a)) / (2 * dot(n, n));
          }
          dir += ar * (ce - p);
          A += ar;
        }
        dir = dir / (2 * A);
      }
      Vector3 n = normal(v);
      if (norm(n) < 1e-6 && !(v.isBoundary() && bc != 2)) {
        skip[v] = 1;
        anySkip = true;
        continue;
      }
      n = n / norm(n);
      Vector3 s{0, 0, 0};
      if (v.isBoundary() && bc < 2) {
        if (bc == 1) {
          Vector3 t{0, 0, 0};
          for (Halfedge h : v.outgoingHalfedges())
            if (!h.isInterior() || !h.twin().isInterior()) {
              Vector3 d = g.vertexPositions[h.tipVertex()] - p;
              t += (h.isInterior() ? 1. : -1.) * d / norm(d);
            }
          if (norm(t) < 1e-6) {
            skip[v] = 1;
            anySkip = true;
            continue;
          }
          t = t / norm(t);
          s = dot(t, dir) * t;
        }
      } else s = dir - dot(n, dir) * n;
      if (mv[v]) {
        want[v] = p + step * s;
        total += norm(step * s);
      }
    }
    MutationManager mm(m, g);
    if (cons) {
      mm.setFlippableEdges(fl);
      mm.setRepositionableVertices(mv);
    }
    RemeshBoundaryCondition B = bc == 0 ? RemeshBoundaryCondition::Fixed : bc == 1 ? RemeshBoundaryCondition::Tangential : RemeshBoundaryCondition::Free;
    std::string k = cat(lap ? "smoothByLaplacian" : "smoothByCircumcenter", " ", bc == 0 ? "fixed" : bc == 1 ? "tangential" : "free");
    c.ctx.transition();
    double r;
    if (cons) r = lap ? smoothByLaplacian(m, g, mm, step, B) : smoothByCircumcenter(m, g, mm, step, B);
    else r = lap ? smoothByLaplacian(m, g, step, B) : smoothByCircumcenter(m, g, step, B);
    for (Vertex v : m.vertices())
      if (!skip[v] && !(norm(g.vertexPositions[v] - want[v]) < 1e-8)) c.bad(k + (v.isBoundary() ? ": boundary vertex" : ": vertex"), cat(v, " to ", g.vertexPositions[v], " rather than ", want[v]));
    if (!anySkip && !close(r, total / m.nVertices(), 1e-8)) c.bad(k + ": result", cat(r, " rather than ", total / m.nVertices()));
    leaks(k.c_str());
    c.ctx.outcome(k);
  }
  void adjust(double target, bool constrained, bool wrapper, double ca = 0) {
    double mean = 0;
    for (Edge e : m.edges()) mean += norm(g.vertexPositions[e.firstVertex()] - g.vertexPositions[e.secondVertex()]);
    mean /= m.nEdges();
    RemeshOptions o;
    o.targetEdgeLength = target < 0 ? target : target * mean;
    double flat = std::abs(target) * mean;
    o.curvatureAdaptation = ca;
    std::set<size_t> need, collapsed;
    EdgeData<double> thr(m, flat); // each edge its own target
    if (ca > 0) {
      VertexPositionGeometry h(m, g.vertexPositions);
      for (Edge e : m.edges()) {
        double H = 0;
        for (Vertex v : {e.firstVertex(), e.secondVertex()}) H += h.vertexMeanCurvature(v) / h.vertexDualArea(v);
        thr[e] = flat / (1 + ca * std::abs(H / 2));
      }
    }
    EdgeData<bool> sp(m, true);
    EdgeData<char> mayC(m, 0);
    auto len = [&](Edge e) { return norm(g.vertexPositions[e.firstVertex()] - g.vertexPositions[e.secondVertex()]); };
    for (Edge e : m.edges()) {
      double L = thr[e];
      if (constrained) sp[e] = e.getIndex() % 3 != 0;
      if (sp[e] && len(e) > 1.5 * L * (1 + 1e-9) && len(e) > o.minRelativeLength * flat) need.insert(e.getIndex());
      if (sp[e] && std::abs(len(e) - 1.5 * L) <= 1e-6 * L) return; // a tie
    }
    int chi = (int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces();
    size_t nl = m.nBoundaryLoops(), nS = 0, nC = 0, nV = m.nVertices();
    c.ctx.transition();
    bool r;
    std::string k = "adjustEdgeLengths";
    if (wrapper) {
      r = adjustEdgeLengths(m, g, o);
      if (!need.empty() && !r) c.bad(k + ": result", "");
      if (need.empty() && m.nVertices() > nV) c.bad(k + ": splits without need", cat(m.nVertices(), " vertices from ", nV, ", target ", target));
    } else {
      MutationManager mm(m, g);
      if (constrained) {
        mm.setSplittableEdges(sp);
        mm.setCollapsibleEdges(sp);
      }
      Vector3 mid;
      double cur = 0, up = planar ? g.faceNormal(m.face(0)).z : 0;
      bool away = false;
      mm.registerEdgeSplitHandlers(
          [&](Edge e, double t) -> size_t {
            nS++;
            if (!need.erase(e.getIndex())) c.bad(k + ": splits an edge which is not too long", cat(e, " length ", len(e), " target ", flat));
            if (std::abs(t - .5) > 1e-9) c.bad(k + ": split parameter", cat(t));
            mid = .5 * (g.vertexPositions[e.firstVertex()] + g.vertexPositions[e.secondVertex()]);
            return 0;
          },
          [&](Halfedge a, Halfedge, double, size_t) {
            if (!(norm(g.vertexPositions[a.vertex()] - mid) < 1e-9)) c.bad(k + ": split position", "");
          });
      mm.registerEdgeCollapseHandlers(
          [&](Edge e, double t) -> size_t {
            if (!need.empty()) c.bad(k + ": collapses before splitting", "");
            cur = len(e);
            away = planar; // away from the boundary, in the plane, without folded faces
            for (Face f : m.faces())
              if (g.faceNormal(f).z * up < 1e-3) away = false;
            for (Vertex v : {e.firstVertex(), e.secondVertex()})
              for (Vertex w : v.adjacentVertices()) away &= !w.isBoundary();
            if (ca == 0 && !(cur < .5 * flat * (1 + 1e-9))) c.bad(k + ": collapses an edge which is not too short", cat(e, " length ", cur, " target ", flat));
            if (std::abs(t - .5) > 1e-9) c.bad(k + ": collapse parameter", cat(t));
            mid = .5 * (g.vertexPositions[e.firstVertex()] + g.vertexPositions[e.secondVertex()]);
            return 0;
          },
          [&](Vertex v, double, size_t) {
            nC++;
            if (away) {
              c.ctx.eval();
              for (Face f : v.adjacentFaces())
                if (g.faceNormal(f).z * up < -1e-3) c.bad(k + ": a collapse folds the plane over", cat(f));
            }
            if (!(norm(g.vertexPositions[v] - mid) < 1e-9)) c.bad(k + ": collapse position", "");
          });
      r = adjustEdgeLengths(m, g, mm, o);
      if (!need.empty()) c.bad(k + ": leaves an edge which is too long", cat("e", *need.begin()));
      if (r != (nS + nC > 0)) c.bad(k + ": result", cat(r, " for ", nS, " splits and ", nC, " collapses"));
    }
    m.validateConnectivity();
    if (!m.isCompressed()) c.bad(k + ": not compressed", "");
    if ((int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces() != chi || m.nBoundaryLoops() != nl) c.bad(k + ": topology", "");
    leaks("adjustEdgeLengths");
    c.ctx.outcome(cat("adjusted", nS ? ", splits" : "", nC ? ", collapses" : ""));
  }
  void whole(int style, int bc, double target, bool constrained) {
    RemeshOptions o;
    o.targetEdgeLength = target;
    o.maxIterations = 4;
    o.smoothStyle = style ? RemeshSmoothStyle::Laplacian : RemeshSmoothStyle::Circumcentric;
    o.boundaryCondition = bc == 0 ? RemeshBoundaryCondition::Fixed : bc == 1 ? RemeshBoundaryCondition::Tangential : RemeshBoundaryCondition::Free;
    int chi = (int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces();
    size_t nl = m.nBoundaryLoops();
    g.requireFaceAreas();
    MutationManager mm(m, g);
    std::vector<Vector3> fixedBefore, fixedAfter;
    EdgeData<bool> ed(m, true);
    VertexData<bool> mv(m, true);
    VertexData<size_t> tag(m, INVALID_IND);
    if (constrained) { // the boundary, or one vertex of a closed mesh, is pinned
      for (Edge e : m.edges())
        if (e.isBoundary()) ed[e] = false;
      for (Vertex v : m.vertices())
        if (v.isBoundary() || (nl == 0 && v.getIndex() == 0)) {
          mv[v] = false;
          tag[v] = fixedBefore.size();
          fixedBefore.push_back(g.vertexPositions[v]);
        }
      mm.setCollapsibleEdges(ed);
      mm.setSplittableEdges(ed);
      mm.setRepositionableVertices(mv);
    }
    c.ctx.transition();
    if (constrained) remesh(m, g, mm, o);
    else remesh(m, g, o);
    m.validateConnectivity();
    if (!m.isCompressed()) c.bad("remesh: not compressed", "");
    if ((int)m.nVertices() - (int)m.nEdges() + (int)m.nFaces() != chi || m.nBoundaryLoops() != nl) c.bad("remesh: topology", "");
    for (Vertex v : m.vertices()) {
      if (planar && std::abs(g.vertexPositions[v].z) > 1e-9) c.bad("remesh: leaves the plane", "");
      if (!isfinite(g.vertexPositions[v])) return; // degenerate after free motion: not judged
    }
    for (Face f : m.faces())
      if (!(std::abs(g.faceAreas[f] - g.faceArea(f)) < 1e-9)) c.bad("remesh: quantities are not refreshed", "");
    if (constrained) {
      size_t seen = 0;
      for (Vertex v : m.vertices())
        if (tag[v] != INVALID_IND) {
          seen++;
          if (!(norm(g.vertexPositions[v] - fixedBefore[tag[v]]) < 1e-12)) c.bad("remesh: moves a fixed vertex", cat(v));
        }
      if (seen != fixedBefore.size()) c.bad("remesh: removes a fixed vertex", "");
      if (nl) {
        size_t b = 0;
        for (Edge e : m.edges()) b += e.isBoundary();
        size_t bv = 0;
        for (Vertex v : m.vertices()) bv += v.isBoundary();
        if (b != fixedBefore.size() || bv != fixedBefore.size()) c.bad("remesh: changes a fixed boundary", "");
      }
    }
    g.unrequireFaceAreas();
    leaks("remesh");
    c.ctx.outcome("remeshed");
  }
};
static void remeshing(Ctx& ctx, const geo::Shape& s, bool T) {
  auto with = [&](const std::string& op, const std::function<void(Rem&)>& f) {
    std::string id = cat(s.name, "-", op);
    if (!ctx.begin(id)) return;
    Case c{ctx, id, {}};
    ctx.state(hashStr(id));
    suite::In in = suite::from(s);
    in.build();
    Rem r{c, *in.mesh, *in.vpg, in.planar};
    f(r);
    suite::In in2 = suite::from(s);
    in2.build();
    if (T || s.P.size() < 60)
      if (suite::punch(in2)) {
        Rem r2{c, *in2.mesh, *in2.vpg, in2.planar};
        f(r2);
      }
    ctx.eval();
  };
  for (int k = 0; k < 2; k++) with(cat("flip", k), [&](Rem& r) { r.flips(k); });
  for (int lap = 0; lap < 2; lap++)
    for (int bc = 0; bc < 3; bc++)
      for (double st : {1., .5, -.3})
        for (int k = 0; k < 2; k++) with(cat("smooth", lap, bc, "-", st, "-", k), [&](Rem& r) { r.smooth(lap, bc, st, k); });
  for (double t : {-1., -.5, -2.5, .2, .31, .47, .7, 1., 1.6, 2.2, 3.1, 5.})
    for (int k = 0; k < 3; k++) with(cat("adjust", t, "-", k), [&](Rem& r) { r.adjust(t, k == 1, k == 2); });
  for (double ca : {.1, .7, 3.})
    for (double t : {.5, .9, 1.3, 2.1})
      for (int k = 0; k < 3; k++) with(cat("curved", ca, "-", t, "-", k), [&](Rem& r) { r.adjust(t, k == 1, k == 2, ca); });
  for (int st = 0; st < 2; st++)
    for (int bc = 0; bc < 3; bc++)
      for (double t : {-1., -.6, -1.7})
        for (int k = 0; k < 2; k++) with(cat("remesh", st, bc, t, "-", k), [&](Rem& r) { r.whole(st, bc, t, k); });
}
int main(int argc, char** argv) {
  int mode = 0;
  for (int i = 1; i < argc; i++) {
    if (std::string(argv[i]) == "--quadric") mode = 1;
    if (std::string(argv[i]) == "--remesh") mode = 2;
  }
  Options o;
  o.property = mode == 0 ? "C20" : mode == 1 ? "C22" : "C35";
  o.technique = mode == 0 ? "explicit enumeration of all words of operations with constraints and callbacks, against the bare mesh operation on a copy" : mode == 1 ? "explicit enumeration of meshes and tolerances; every collapse is observed and judged by independent quadrics" : "explicit enumeration of meshes, options and constraints; every mutation is observed, positions against independent formulas";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = mode == 0 ? "a result, position, callback or constraint which is not that of the operation" : mode == 1 ? "a collapse that is not the cheapest, or not to the point of least error" : "a mutation without cause, a missing one, or a wrong position";
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    if (mode == 0) manager(ctx, ctx.thorough);
    auto S = suite::triShapes(ctx.thorough);
    if (mode == 1) {
      for (auto& s : S)
        for (double tol : {1e-6, .01, .05, .3, 2., 50.})
          for (int k = 0; k < 4; k++) quadric(ctx, s, tol, k % 2 ? Vector3{7, -5, 11} : Vector3{0, 0, 0}, k / 2);
      for (auto& s : {suite::jitter(geo::midpoint(geo::icosahedron()), .2), suite::jitter(geo::planarGrid(6, 6, 1), .3), geo::planarGrid(6, 6, 2, true), geo::midpoint(geo::cubeTri())})
        for (double tol : {1e-6, .01, .05, .3, 2.})
          for (int k = 0; k < 4; k++) quadric(ctx, s, tol, k % 2 ? Vector3{7, -5, 11} : Vector3{0, 0, 0}, k / 2);
    }
    if (mode == 2) {
      for (auto& s : S) remeshing(ctx, s, ctx.thorough);
      for (int style = 1; style < 4; style++) remeshing(ctx, geo::planarGrid(4, 4, style), ctx.thorough);
      remeshing(ctx, suite::jitter(geo::planarGrid(5, 4, 2), .6, true), ctx.thorough);
      for (int q = 0; q < 8; q++) { // interior vertices displaced in many ways, no face turned over
        geo::Shape s = geo::planarGrid(6, 6, 1 + q % 3);
        s.name += cat("dented", q);
        for (size_t i = 0; i < s.p.size(); i++) {
          size_t x = i % 7, y = i / 7;
          if (x == 0 || y == 0 || x == 6 || y == 6) continue;
          auto clear = [&]() {
            for (auto& f : s.P)
              if (cross(s.p[f[1]] - s.p[f[0]], s.p[f[2]] - s.p[f[0]]).z < .05) return false;
            return true;
          };
          geo::Pts old = s.p;
          for (double r : {.7, .5, .3}) {
            double al = 2.4 * (i * i * (q + 1) % 17) + q;
            s.p[i] = old[i] + r * Vector3{std::cos(al), std::sin(al), 0};
            if (clear()) break;
            s.p = old;
          }
        }
        remeshing(ctx, s, ctx.thorough);
      }
      remeshing(ctx, suite::jitter(geo::midpoint(geo::octahedron()), .5), ctx.thorough);
    }
  });
}
