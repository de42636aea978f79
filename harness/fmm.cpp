// C17: the fast marching method, against the (unique) fixed point of the upwind scheme computed by plain relaxation, for
// every vertex / edge / face source, pairs and triples of sources with initial values, and for every short curve that
// separates the surface (loops along edges, across edges, through faces, from boundary to boundary) in both directions.
#include "suite.h"
#include "geometrycentral/surface/fast_marching_method.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;

typedef std::vector<std::vector<std::pair<SurfacePoint, double>>> Init;
static std::string sp(const SurfacePoint& p) {
  if (p.type == SurfacePointType::Vertex) return cat("v", p.vertex.getIndex());
  if (p.type == SurfacePointType::Edge) return cat("e", p.edge.getIndex(), ":", p.tEdge);
  return cat("f", p.face.getIndex(), ":", p.faceCoords);
}
static std::string str(const Init& in) {
  std::string r;
  for (auto& c : in) {
    r += "(";
    for (auto& x : c) r += cat(sp(x.first), x.second ? cat("=", x.second) : std::string(), " ");
    r += ") ";
  }
  return r;
}
static const double INF = std::numeric_limits<double>::infinity();

struct Case {
  Ctx& ctx;
  std::string id;
  SurfaceMesh& mesh;
  IntrinsicGeometryInterface& g;
  std::set<std::string> seen;
  struct T {
    Vertex v[3];
    double l[3]; // of side i -> i+1
    Halfedge h[3];
  };
  std::vector<T> tris;
  bool rightAngles = false;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i, SurfaceMesh& m, IntrinsicGeometryInterface& g_) : ctx(c), id(i), mesh(m), g(g_) {
    g.requireEdgeLengths();
    for (Face f : mesh.faces()) {
      T t;
      Halfedge h = f.halfedge();
      for (int i = 0; i < 3; i++, h = h.next()) {
        t.h[i] = h;
        t.v[i] = h.vertex();
        t.l[i] = g.edgeLengths[h.edge()];
      }
      tris.push_back(t);
    }
  }
  // value at a corner from the two values at the base, for lengths b (to A), a (to B), c (base)
  double update(double a, double b, double c, double dA, double dB, bool rightIsObtuse) {
    double r = std::min(b + dA, a + dB);
    if (!std::isfinite(dA) || !std::isfinite(dB)) return r;
    double f = (b * b + c * c - a * a) / (2 * c), h = std::sqrt(std::max(0., b * b - f * f));
    double cosT = (a * a + b * b - c * c) / (2 * a * b);
    bool obtuse = cosT < 0;
    if (std::abs(cosT) < 1e-9) {
      rightAngles = true;
      obtuse = rightIsObtuse;
    }
    if (obtuse) return std::min(r, std::max(dA, dB) + h);
    double m = (dB - dA) / c; // linear front on the base, the smallest of front + distance
    if (std::abs(m) < 1) {
      double x = f - m * h / std::sqrt(1 - m * m);
      if (x > 0 && x < c) r = std::min(r, dA + m * x + std::hypot(h, x - f));
    }
    return r;
  }
  // seed values; pinned vertices keep theirs
  VertexData<double> solve(const Init& in, bool pinAll, bool rightIsObtuse) {
    VertexData<double> d(mesh, INF);
    VertexData<char> pin(mesh, 0);
    auto seed = [&](Vertex v, double x, bool p) {
      d[v] = std::min(d[v], x);
      if (p) pin[v] = 1;
    };
    for (auto& c : in)
      for (auto& s : c) {
        const SurfacePoint& p = s.first;
        if (p.type == SurfacePointType::Vertex) seed(p.vertex, s.second, true);
        if (p.type == SurfacePointType::Edge) {
          double l = g.edgeLengths[p.edge];
          seed(p.edge.firstVertex(), s.second + p.tEdge * l, pinAll);
          seed(p.edge.secondVertex(), s.second + (1 - p.tEdge) * l, pinAll);
        }
        if (p.type == SurfacePointType::Face)
          for (auto& t : tris)
            if (t.h[0].face() == p.face) {
              double A = t.l[2], B = t.l[0], x = (A * A + B * B - t.l[1] * t.l[1]) / (2 * B), y = std::sqrt(A * A - x * x);
              Vector2 q[3] = {{0, 0}, {B, 0}, {x, y}}, o = p.faceCoords[0] * q[0] + p.faceCoords[1] * q[1] + p.faceCoords[2] * q[2];
              for (int i = 0; i < 3; i++) seed(t.v[i], s.second + norm(o - q[i]), pinAll);
            }
      }
    for (bool more = true; more;) {
      more = false;
      for (auto& t : tris)
        for (int i = 0; i < 3; i++) {
          Vertex v = t.v[i], A = t.v[(i + 1) % 3], B = t.v[(i + 2) % 3];
          if (pin[v]) continue;
          double x = update(t.l[(i + 2) % 3], t.l[i], t.l[(i + 1) % 3], d[A], d[B], rightIsObtuse);
          if (x < d[v] - 1e-13 * (1 + std::abs(x))) {
            d[v] = x;
            more = true;
          }
        }
    }
    return d;
  }
  void compare(const std::string& what, const Init& in, const VertexData<double>& got, bool pinAll, const VertexData<char>* sign = nullptr) {
    rightAngles = false;
    ctx.eval(mesh.nVertices());
    VertexData<double> lo = solve(in, pinAll, false), hi = rightAngles ? solve(in, pinAll, true) : lo;
    for (Vertex v : mesh.vertices()) {
      double a = std::min(lo[v], hi[v]), b = std::max(lo[v], hi[v]), x = got[v];
      if (sign) {
        if ((*sign)[v] == 2) continue; // side unknown
        if (std::abs(x) > 1e-9 && (x > 0) != ((*sign)[v] > 0)) {
          bad(what + " sign", cat("from ", str(in), "at ", v, " is ", x, " on the ", (*sign)[v] > 0 ? "right" : "left"));
          return;
        }
        x = std::abs(x);
      }
      double tol = std::isfinite(b) ? 1e-8 * (1 + std::abs(b)) : 0;
      if (std::isinf(a) && std::isinf(x) && x > 0) continue;
      if (!(x >= a - tol && x <= b + tol)) {
        bad(what, cat("from ", str(in), "at ", v, " is ", x, " should be ", a, b > a + tol ? cat("..", b) : std::string()));
        return;
      }
    }
  }
  void unsignedCase(const Init& in) {
    ctx.transition();
    VertexData<double> d = FMMDistance(g, in);
    compare("distance", in, d, false);
    for (auto& c : in)
      for (auto& x : c)
        if (x.first.type == SurfacePointType::Vertex && c.size() == 1 && in.size() == 1) {
          VertexData<double> e = FMMDistance(g, std::vector<std::pair<Vertex, double>>{{x.first.vertex, x.second}});
          for (Vertex v : mesh.vertices())
            if (e[v] != d[v] && !(std::isnan(e[v]) && std::isnan(d[v]))) bad("vertex list", cat("differs at ", v));
        }
    ctx.outcome("unsigned");
  }
  void allUnsigned(bool deep) {
    std::vector<SurfacePoint> pts;
    for (Vertex v : mesh.vertices()) pts.push_back(v);
    for (Edge e : mesh.edges()) pts.push_back(SurfacePoint(e, e.getIndex() % 2 ? .3 : .9));
    for (Face f : mesh.faces()) pts.push_back(SurfacePoint(f, f.getIndex() % 2 ? Vector3{.2, .5, .3} : Vector3{.1, .1, .8}));
    size_t n = pts.size();
    for (auto& p : pts) {
      unsignedCase({{{p, 0.}}});
      unsignedCase({{{p, -1.5}}});
    }
    unsignedCase({});
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        if (!deep && (i * n + j) % 3) continue;
        if (i == j) continue;
        unsignedCase({{{pts[i], 0.}, {pts[j], (i + j) % 2 ? .25 : 0.}}});
        if ((i + j) % 5 == 0) unsignedCase({{{pts[i], .1}}, {{pts[j], 0.}, {pts[(i + 2 * j) % n], .4}}});
      }
  }

  // ---------------------------------------------------------------- signed distance
  // side of every vertex: +1 right of the curve, -1 left of it, 1 on it; 2 where unknown. False if the curve does not separate
  bool sides(const Init& in, VertexData<char>& s) {
    s = VertexData<char>(mesh, 2);
    VertexData<char> on(mesh, 0);
    EdgeData<int> cross(mesh, 0), along(mesh, 0);
    bool ok = true;
    auto put = [&](Vertex v, int x) {
      if (on[v]) return;
      if (s[v] == 2) s[v] = (char)x;
      else if (s[v] != x) ok = false;
    };
    for (auto& c : in)
      for (auto& x : c)
        if (x.first.type == SurfacePointType::Vertex) {
          on[x.first.vertex] = 1;
          s[x.first.vertex] = 1;
        }
    auto coords = [&](const T& t, const SurfacePoint& p, bool& has) {
      Vector3 b = Vector3::zero();
      has = true;
      if (p.type == SurfacePointType::Face && p.face == t.h[0].face()) return p.faceCoords;
      for (int i = 0; i < 3; i++) {
        if (p.type == SurfacePointType::Vertex && t.v[i] == p.vertex) {
          b[i] = 1;
          return b;
        }
        if (p.type == SurfacePointType::Edge && t.h[i].edge() == p.edge) {
          bool same = t.h[i].vertex() == p.edge.firstVertex();
          b[i] = same ? 1 - p.tEdge : p.tEdge;
          b[(i + 1) % 3] = same ? p.tEdge : 1 - p.tEdge;
          return b;
        }
      }
      has = false;
      return b;
    };
    // segments
    std::vector<std::pair<Vertex, Vertex>> dirs;
    EdgeData<char> through(mesh, 0);
    for (auto& c : in)
      for (size_t i = 0; i + 1 < c.size(); i++) {
        for (auto& t : tris) {
          bool ha, hb;
          Vector3 a = coords(t, c[i].first, ha), b = coords(t, c[i + 1].first, hb);
          if (!ha || !hb) continue;
          double area[3];
          for (int k = 0; k < 3; k++) { // signed area of (a, b, corner k)
            Vector3 e = Vector3::zero();
            e[k] = 1;
            area[k] = dot(a, cross3(b, e));
          }
          for (int k = 0; k < 3; k++) {
            if (area[k] > 1e-12) put(t.v[k], -1);
            if (area[k] < -1e-12) put(t.v[k], 1);
          }
          for (int k = 0; k < 3; k++) // along side k
            if (std::abs(a[(k + 2) % 3]) < 1e-12 && std::abs(b[(k + 2) % 3]) < 1e-12) along[t.h[k].edge()] = 1;
        }
      }
    // crossed edges: the curve passes a point of the edge and does not run along it
    for (auto& c : in)
      for (size_t i = 0; i < c.size(); i++) {
        const SurfacePoint& p = c[i].first;
        if (p.type != SurfacePointType::Edge || along[p.edge]) continue;
        bool closing = i + 1 == c.size() && c.size() > 1 && c[0].first.type == SurfacePointType::Edge && c[0].first.edge == p.edge && c[0].first.tEdge == p.tEdge;
        if (!closing && !p.edge.isBoundary()) cross[p.edge]++;
        if (p.edge.isBoundary()) cross[p.edge] = 1;
      }
    // corners around vertices of the curve: sides are kept across every corner and every edge the curve does not use
    for (bool more = true; more && ok;) {
      more = false;
      for (Edge e : mesh.edges()) {
        Vertex a = e.firstVertex(), b = e.secondVertex();
        if (on[a] || on[b] || along[e]) continue;
        for (int k = 0; k < 2; k++, std::swap(a, b))
          if (s[a] != 2) {
            char want = cross[e] % 2 ? -s[a] : s[a];
            if (s[b] == 2) {
              s[b] = want;
              more = true;
            } else if (s[b] != want) ok = false;
          }
      }
      // fans: walk counterclockwise around the vertices of the curve
      for (Vertex p : mesh.vertices())
        if (on[p]) {
          std::vector<Halfedge> fan; // counterclockwise
          for (Halfedge h : p.outgoingHalfedges()) fan.push_back(h);
          std::reverse(fan.begin(), fan.end());
          size_t n = fan.size();
          int cur = 2;
          for (size_t k = 0; k < 2 * n; k++) {
            Halfedge h = fan[k % n];
            Vertex q = h.tipVertex();
            // how the curve uses this edge
            int use = 0;
            for (auto& c : in)
              for (size_t i = 0; i + 1 < c.size(); i++) {
                auto isP = [&](const SurfacePoint& x) { return x.type == SurfacePointType::Vertex && x.vertex == p; };
                auto onE = [&](const SurfacePoint& x) { return (x.type == SurfacePointType::Edge && x.edge == h.edge()) || (x.type == SurfacePointType::Vertex && x.vertex == q); };
                if (isP(c[i].first) && onE(c[i + 1].first)) use = -1; // leaving: left of it comes next
                if (isP(c[i + 1].first) && onE(c[i].first)) use = 1;
              }
            if (use) cur = use;
            else if (!on[q]) {
              if (s[q] != 2 && !cross[h.edge()] ) {
                if (cur != 2 && cur != s[q] && !faceSegmentAt(in, p)) ok = false;
                cur = s[q];
              } else if (cur != 2 && !cross[h.edge()] && !faceSegmentAt(in, p)) {
                s[q] = (char)cur;
                more = true;
              }
            }
            if (!h.isInterior()) cur = 2; // the next corner is across the boundary
          }
        }
    }
    if (!ok) return false;
    // both sides must not be the same region: every vertex judged by the propagation above was consistent
    return true;
  }
  static Vector3 cross3(Vector3 a, Vector3 b) { return geometrycentral::cross(a, b); }
  // does the curve leave or enter p through the inside of a face?
  bool faceSegmentAt(const Init& in, Vertex p) {
    for (auto& c : in)
      for (size_t i = 0; i + 1 < c.size(); i++)
        for (int k = 0; k < 2; k++) {
          const SurfacePoint &a = c[i + k].first, &b = c[i + 1 - k].first;
          if (a.type != SurfacePointType::Vertex || a.vertex != p) continue;
          if (b.type == SurfacePointType::Face) return true;
          if (b.type == SurfacePointType::Edge && b.edge.firstVertex() != p && b.edge.secondVertex() != p) return true;
        }
    return false;
  }
  std::set<std::string> done;
  void signedCase(const std::string& kind, const std::vector<SurfacePoint>& curve) {
    for (int rev = 0; rev < 2; rev++) {
      Init in(1);
      for (auto& p : curve) in[0].emplace_back(p, 0.);
      if (rev) std::reverse(in[0].begin(), in[0].end());
      if (!done.insert(str(in)).second) continue;
      VertexData<char> s;
      if (!sides(in, s)) {
        ctx.outcome("not separating");
        continue;
      }
      ctx.transition();
      VertexData<double> d = FMMDistance(g, in, true);
      compare("signed " + kind, in, d, true, &s);
      bool l = false, r = false;
      for (Vertex v : mesh.vertices()) {
        l |= s[v] == -1;
        r |= s[v] == 1;
      }
      ctx.outcome(l ? "signed, two sides" : "signed, right side only");
      bool verts = true;
      for (auto& p : curve) verts &= p.type == SurfacePointType::Vertex;
      if (verts) {
        std::vector<std::pair<Vertex, double>> vs;
        for (auto& x : in[0]) vs.emplace_back(x.first.vertex, 0.);
        VertexData<double> e = FMMDistance(g, vs, true);
        for (Vertex v : mesh.vertices())
          if (e[v] != d[v]) bad("signed vertex list", cat("differs at ", v, " ", e[v], " ", d[v]));
      }
    }
  }
  Edge edgeOf(Vertex a, Vertex b) {
    for (Edge e : a.adjacentEdges())
      if (e.otherVertex(a) == b) return e;
    return Edge();
  }
  void allSigned(bool deep) {
    size_t maxLen = deep ? 8 : 6, count = 0, cap = deep ? 4000 : 500;
    // loops along edges, and the same with points inside the edges; paths from boundary to boundary
    std::vector<Vertex> path;
    VertexData<char> used(mesh, 0);
    auto emit = [&](bool closed) {
      std::vector<SurfacePoint> c, m;
      for (size_t i = 0; i < path.size(); i++) {
        c.push_back(path[i]);
        m.push_back(path[i]);
        if (i + 1 < path.size() || closed) {
          Vertex q = path[(i + 1) % path.size()];
          Edge e = edgeOf(path[i], q);
          if (i % 2 == 0) m.push_back(SurfacePoint(e, .4));
        }
      }
      if (closed) {
        c.push_back(path[0]);
        m.push_back(path[0]);
      }
      signedCase(closed ? "vertex loop" : "boundary to boundary path", c);
      signedCase(closed ? "loop with points in edges" : "path with points in edges", m);
      count++;
    };
    std::function<void()> grow = [&]() {
      if (count > cap) return;
      Vertex last = path.back();
      for (Vertex w : last.adjacentVertices()) {
        if (path.size() > 2 && w == path[0]) {
          bool least = true;
          for (Vertex x : path) least &= x.getIndex() >= path[0].getIndex();
          if (least && path[1].getIndex() < path.back().getIndex()) emit(true);
        }
        if (used[w] || path.size() >= maxLen) continue;
        if (path[0].isBoundary() && path.size() > 1 && last.isBoundary()) continue;
        path.push_back(w);
        used[w] = 1;
        if (path[0].isBoundary() && w.isBoundary() && path.size() > 2) {
          bool inner = true;
          for (size_t i = 1; i + 1 < path.size(); i++) inner &= !path[i].isBoundary();
          if (inner && path[0].getIndex() < w.getIndex()) emit(false);
        }
        if (path.size() < maxLen) grow();
        used[w] = 0;
        path.pop_back();
      }
    };
    for (Vertex v : mesh.vertices()) {
      count = 0;
      path = {v};
      used[v] = 1;
      grow();
      used[v] = 0;
    }
    // loops and arcs across edges around every connected set of up to three (four) vertices
    std::set<std::set<size_t>> sets;
    std::function<void(std::set<size_t>)> sub = [&](std::set<size_t> K) {
      if (!sets.insert(K).second) return;
      around(K);
      if (K.size() >= (deep ? 4u : 3u)) return;
      for (size_t i : K)
        for (Vertex w : mesh.vertex(i).adjacentVertices())
          if (!K.count(w.getIndex())) {
            auto K2 = K;
            K2.insert(w.getIndex());
            sub(K2);
          }
    };
    for (Vertex v : mesh.vertices()) sub({v.getIndex()});
    // a vertex, across an edge to the opposite vertex, and back along edges
    for (Edge e : mesh.edges()) {
      if (e.isBoundary()) continue;
      Halfedge h = e.halfedge();
      Vertex a = h.vertex(), b = h.tipVertex(), c = h.next().tipVertex(), d = h.twin().next().tipVertex();
      if (c == d) continue;
      for (double t : {.5, .2}) {
        signedCase("loop across an edge", {c, SurfacePoint(e, t), d, a, c});
        signedCase("loop across an edge", {c, SurfacePoint(e, t), d, b, c});
        Edge ca = edgeOf(c, a), da = edgeOf(d, a);
        signedCase("loop across an edge", {SurfacePoint(ca, .5), SurfacePoint(h.face(), Vector3{1. / 3, 1. / 3, 1. / 3}), SurfacePoint(e, t), d, a, SurfacePoint(ca, .5)});
        (void)da;
      }
    }
  }
  void around(const std::set<size_t>& K) {
    auto in = [&](Vertex v) { return K.count(v.getIndex()) > 0; };
    // crossed halfedges: tail inside, tip outside; the next one counterclockwise around K
    std::vector<Halfedge> cut;
    for (Edge e : mesh.edges()) {
      if (in(e.firstVertex()) == in(e.secondVertex())) continue;
      Halfedge h = e.halfedge();
      cut.push_back(in(h.vertex()) ? h : h.twin());
    }
    if (cut.size() < 2) return;
    // inside the face left of the crossed halfedge, the crossing continues through the other crossed side
    auto nextOf = [&](Halfedge h) {
      if (!h.isInterior()) return Halfedge();
      Halfedge k = h.next();
      if (in(k.vertex()) == in(k.tipVertex())) k = k.next();
      return in(k.vertex()) ? k : k.twin();
    };
    Halfedge start = cut[0];
    bool open = false;
    for (Halfedge h : cut) // an arc starts where its right side is the boundary
      if (!h.twin().isInterior()) {
        start = h;
        open = true;
      }
    std::vector<Halfedge> loop;
    Halfedge h = start;
    while (true) {
      loop.push_back(h);
      h = nextOf(h);
      if (h == Halfedge() || h == start || loop.size() > cut.size()) break;
    }
    if (loop.size() != cut.size() || open != (h == Halfedge())) return;
    for (int pat = 0; pat < 4; pat++) {
      std::vector<SurfacePoint> c, m;
      for (size_t i = 0; i < loop.size() + (open ? 0 : 1); i++) {
        Halfedge x = loop[i % loop.size()];
        double t = pat == 0 ? .5 : pat == 1 ? .25 : pat == 2 ? ((i % loop.size()) % 2 ? .2 : .7) : .9;
        if (x != x.edge().halfedge()) t = 1 - t;
        SurfacePoint p(x.edge(), t);
        if (i > 0 && pat == 1) { // through a point in the face
          Vector3 a = c.back().inFace(loop[(i - 1) % loop.size()].face()).faceCoords, b = p.inFace(loop[(i - 1) % loop.size()].face()).faceCoords;
          m.push_back(SurfacePoint(loop[(i - 1) % loop.size()].face(), .5 * (a + b)));
        }
        c.push_back(p);
        m.push_back(p);
      }
      signedCase(open ? "arc across edges" : "loop across edges", c);
      if (pat == 1) signedCase(open ? "arc through faces" : "loop through faces", m);
    }
  }
};

int main(int argc, char** argv) {
  Options o;
  o.property = "C17";
  o.technique = "exhaustive enumeration of sources, initial values and short separating curves on small triangle meshes; fast marching compared with the fixed point of the upwind scheme";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "a value of fast marching that differs from the fixed point of the upwind scheme, or a wrong sign";
  o.caseCpuLimit = 60;
  return run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    std::vector<geo::Shape> shapes = suite::triShapes(T);
    shapes.push_back(suite::jitter(geo::midpoint(geo::octahedron()), .2));
    shapes.push_back(suite::jitter(geo::planarGrid(4, 4, 2), .3, true));
    shapes.push_back(suite::jitter(geo::planarGrid(5, 3, 1), .4));
    size_t k = 0;
    for (auto& s : shapes)
      for (int variant = 0; variant < 5; variant++) {
        // 0 manifold; 1 manifold, signed; 2 general mesh; 3 general mesh with faces of both orientations; 4 with holes in the indices
        if (variant == 3 && k++ % 2 && !T) continue;
        std::string id = cat(s.name, "#", variant);
        if (!ctx.begin(id)) continue;
        if (variant == 2 || variant == 3) {
          auto P = s.P;
          if (variant == 3)
            for (size_t i = 0; i < P.size(); i += 3) std::reverse(P[i].begin(), P[i].end());
          auto e = geo::general(P, s.p);
          Case c(ctx, id, *e.mesh, *e.geom);
          if (!e.mesh->isManifold()) continue;
          c.allUnsigned(T);
          continue;
        }
        suite::In in = suite::from(s);
        in.build();
        if (variant == 4 && !suite::punch(in)) continue;
        Case c(ctx, id, *in.mesh, *in.g);
        if (variant == 0 || variant == 4) c.allUnsigned(T);
        if (variant == 1 || variant == 4) c.allSigned(T);
        ctx.state(hashStr(id));
      }
    // two components
    if (ctx.begin("two components")) {
      gen::Polys P{{0, 1, 2}, {3, 4, 5}, {3, 5, 6}};
      geo::Pts p{{0, 0, 0}, {1, 0, 0}, {.3, 1, 0}, {3, 0, 0}, {4, 0, 0}, {4, 1, 1}, {3, 1, 0}};
      auto e = geo::manifold(P, p);
      Case c(ctx, "two components", *e.mesh, *e.geom);
      c.allUnsigned(true);
    }
    for (size_t nf = 1; nf <= 3u; nf++)
      suite::glued(nf, nf <= 2 || T ? std::vector<double>{1, 1.3, 1.7} : std::vector<double>{1, 1.6}, false, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        in.build();
        if (!in.M->valid) return;
        Case c(ctx, in.name, *in.mesh, *in.g);
        c.allUnsigned(true);
        ctx.state(hashStr(in.name));
      });
  });
}
