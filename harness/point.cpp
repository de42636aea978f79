// C27: surface points and barycentric vectors.  Every vertex, every edge at a lattice of parameters and every face at a
// lattice of barycentric coordinates, every vector between lattice positions, and every pair of them, on every input.
#include "suite.h"
#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
#include "geometrycentral/surface/barycentric_vector.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;

static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
struct Case {
  Ctx& ctx;
  std::string id;
  SurfaceMesh& mesh;
  IntrinsicGeometryInterface& g;
  VertexData<Vector3> pos; // positions, or arbitrary values for surfaces which only have lengths
  std::vector<double> L;
  bool embedded, manifold;
  std::vector<std::vector<Halfedge>> corner; // per face
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i, SurfaceMesh& m, IntrinsicGeometryInterface& g_, bool emb, bool man) : ctx(c), id(i), mesh(m), g(g_), pos(m), embedded(emb), manifold(man) {
    corner.resize(m.nFaces());
    for (Face f : m.faces()) {
      Halfedge h = f.halfedge();
      do {
        corner[f.getIndex()].push_back(h);
        h = h.next();
      } while (h != f.halfedge());
    }
  }
  // incidence by brute force over the corners of the faces
  bool has(Face f, Vertex v) {
    for (Halfedge h : corner[f.getIndex()])
      if (h.vertex() == v) return true;
    return false;
  }
  bool has(Face f, Edge e) {
    for (Halfedge h : corner[f.getIndex()])
      if (h.edge() == e) return true;
    return false;
  }
  bool has(Edge e, Vertex v) { return e.firstVertex() == v || e.secondVertex() == v; }
  template <class P>
  bool inF(Face f, const P& p) {
    if (p.face != Face()) return p.face == f;
    if (p.edge != Edge()) return has(f, p.edge);
    return has(f, p.vertex);
  }
  template <class P>
  bool inE(Edge e, const P& p) {
    if (p.face != Face()) return false;
    if (p.edge != Edge()) return p.edge == e;
    return has(e, p.vertex);
  }
  // the values the coordinates of something may take when written in face f
  std::vector<Vector3> inFaceRef(Face f, Vertex v, Vector2, Edge) {
    std::vector<Vector3> r;
    for (int i = 0; i < 3; i++)
      if (corner[f.getIndex()][i].vertex() == v) {
        Vector3 b = Vector3::zero();
        b[i] = 1;
        r.push_back(b);
      }
    return r;
  }
  std::vector<Vector3> edgeRef(Face f, Edge e, Vector2 c) { // coefficients at (first, second) vertex of e
    std::vector<Vector3> r;
    for (int i = 0; i < 3; i++) {
      Halfedge h = corner[f.getIndex()][i];
      if (h.edge() != e) continue;
      Vector3 b = Vector3::zero();
      bool same = h == e.halfedge() || (h.vertex() == e.firstVertex() && h.next().vertex() == e.secondVertex() && e.firstVertex() != e.secondVertex());
      b[i] = same ? c.x : c.y;
      b[(i + 1) % 3] = same ? c.y : c.x;
      r.push_back(b);
    }
    return r;
  }
  static bool among(const std::vector<Vector3>& r, Vector3 b) {
    for (auto& x : r)
      if (norm(x - b) < 1e-12) return true;
    return false;
  }
  static bool among2(const Vector2& a, const Vector2& b) { return norm(a - b) < 1e-12; }

  Vector3 value(const SurfacePoint& p) {
    if (p.type == SurfacePointType::Vertex) return pos[p.vertex];
    if (p.type == SurfacePointType::Edge) return (1 - p.tEdge) * pos[p.edge.firstVertex()] + p.tEdge * pos[p.edge.secondVertex()];
    Vector3 r = Vector3::zero();
    for (int i = 0; i < 3; i++) r += p.faceCoords[i] * pos[corner[p.face.getIndex()][i].vertex()];
    return r;
  }
  Vector3 value(const BarycentricVector& p) {
    if (p.type == BarycentricVectorType::Vertex) return Vector3::zero();
    if (p.type == BarycentricVectorType::Edge) return p.edgeCoords.x * pos[p.edge.firstVertex()] + p.edgeCoords.y * pos[p.edge.secondVertex()];
    Vector3 r = Vector3::zero();
    for (int i = 0; i < 3; i++) r += p.faceCoords[i] * pos[corner[p.face.getIndex()][i].vertex()];
    return r;
  }
  std::array<Vector2, 3> layout(Face f) {
    auto& c = corner[f.getIndex()];
    double a = L[c[0].edge().getIndex()], b = L[c[1].edge().getIndex()], d = L[c[2].edge().getIndex()];
    double x = (a * a + d * d - b * b) / (2 * a);
    return {Vector2{0, 0}, Vector2{a, 0}, Vector2{x, std::sqrt(d * d - x * x)}};
  }
  Vector2 flat(Face f, Vector3 b) {
    auto q = layout(f);
    return b.x * q[0] + b.y * q[1] + b.z * q[2];
  }

  std::vector<SurfacePoint> pts;
  std::vector<BarycentricVector> vecs;
  void lattice(bool deep) {
    for (Vertex v : mesh.vertices()) {
      pts.push_back(v);
      vecs.push_back(BarycentricVector(v));
    }
    for (Edge e : mesh.edges()) {
      for (double t : deep ? std::vector<double>{0, .25, .5, .7, 1} : std::vector<double>{.25, .7}) pts.push_back(SurfacePoint(e, t));
      for (double t : {1., -.6}) vecs.push_back(BarycentricVector(e, Vector2{-t, t}));
    }
    for (Face f : mesh.faces()) {
      for (Vector3 b : {Vector3{.2, .3, .5}, Vector3{.6, .25, .15}, Vector3{.25, .5, .25}}) pts.push_back(SurfacePoint(f, b));
      for (Vector3 b : {Vector3{1, -1, 0}, Vector3{.5, .25, -.75}, Vector3{-1.2, .5, .7}, Vector3{0, .4, -.4}}) vecs.push_back(BarycentricVector(f, b));
    }
  }
  void points(bool pairs) {
    for (auto& p : pts) {
      ctx.eval();
      std::string at = cat("at ", p);
      p.validate();
      if (!(p == p) || p != p) bad("==", at);
      if (norm(p.interpolate(pos) - value(p)) > 1e-12) bad("interpolate", at);
      SurfacePoint q = p.inSomeFace();
      if (q.type != SurfacePointType::Face || !geod::validPoint(q, &mesh)) bad("inSomeFace", cat(at, " gives ", q));
      else if (!inF(q.face, p) || !same(p, q)) bad("inSomeFace", cat(at, " gives ", q));
      for (Face f : mesh.faces()) {
        ctx.transition();
        bool threw = false;
        SurfacePoint r;
        try {
          r = p.inFace(f);
        } catch (std::exception&) {
          threw = true;
        }
        if (threw == inF(f, p)) bad("inFace", cat(at, " into ", f, threw ? " throws" : " does not throw"));
        else if (!threw && (r.type != SurfacePointType::Face || r.face != f || !same(p, r))) bad("inFace", cat(at, " gives ", r));
      }
      for (Edge e : mesh.edges()) {
        ctx.transition();
        bool threw = false;
        SurfacePoint r;
        try {
          r = p.inEdge(e);
        } catch (std::exception&) {
          threw = true;
        }
        if (threw == inE(e, p)) bad("inEdge", cat(at, " into ", e, threw ? " throws" : " does not throw"));
        else if (!threw && (r.type != SurfacePointType::Edge || r.edge != e || norm(value(r) - value(p)) > 1e-12)) bad("inEdge", cat(at, " gives ", r));
      }
      // nearestVertex: the vertex with the largest coefficient
      Vertex n = p.nearestVertex();
      bool ok = false;
      if (p.type == SurfacePointType::Vertex) ok = n == p.vertex;
      else if (p.type == SurfacePointType::Edge) ok = (p.tEdge <= .5 && n == p.edge.firstVertex()) || (p.tEdge >= .5 && n == p.edge.secondVertex());
      else
        for (int i = 0; i < 3; i++)
          ok |= p.faceCoords[i] >= std::max(p.faceCoords.x, std::max(p.faceCoords.y, p.faceCoords.z)) && corner[p.face.getIndex()][i].vertex() == n;
      if (!ok) bad("nearestVertex", cat(at, " is ", n));
    }
    for (Halfedge h : mesh.interiorHalfedges())
      for (double t : {0., .25, .7, 1.}) {
        SurfacePoint p(h, t);
        int i = 0;
        for (; corner[h.face().getIndex()][i] != h;) i++;
        Vector3 b = Vector3::zero();
        b[i] = 1 - t;
        b[(i + 1) % 3] += t;
        if (p.type != SurfacePointType::Edge || p.edge != h.edge() || !same(p, SurfacePoint(h.face(), b))) bad("SurfacePoint(Halfedge,t)", cat(h, " ", t, " gives ", p));
      }
    if (!pairs) return;
    for (auto& p : pts)
      for (auto& q : pts) {
        ctx.transition();
        std::string at = cat(p, " and ", q);
        bool shared = false;
        for (Face f : mesh.faces()) shared |= inF(f, p) && inF(f, q);
        bool both = p.type == SurfacePointType::Vertex && q.type == SurfacePointType::Vertex && p.vertex == q.vertex;
        if (!both && checkAdjacent(p, q) != shared) bad("checkAdjacent", cat(at, " should be ", shared));
        Face f = sharedFace(p, q);
        if (f == Face() ? (shared && !both) : !(inF(f, p) && inF(f, q))) bad("sharedFace", cat(at, " gives ", f));
        bool es = false;
        for (Edge e : mesh.edges()) es |= inE(e, p) && inE(e, q);
        Edge e = sharedEdge(p, q);
        if (e == Edge() ? (es && !both) : !(inE(e, p) && inE(e, q))) bad("sharedEdge", cat(at, " gives ", e));
        bool same_ = p.type == q.type && (p.type == SurfacePointType::Vertex ? p.vertex == q.vertex : p.type == SurfacePointType::Edge ? p.edge == q.edge : p.face == q.face);
        if (onSameElement(p, q) != same_) bad("onSameElement", at);
        bool eq = same_ && (p.type == SurfacePointType::Vertex || (p.type == SurfacePointType::Edge ? p.tEdge == q.tEdge : norm(p.faceCoords - q.faceCoords) == 0));
        if ((p == q) != eq || (p != q) == eq) bad("==", at);
        // the vector from p to q
        bool threw = false;
        BarycentricVector w;
        try {
          w = BarycentricVector(p, q);
        } catch (std::exception&) {
          threw = true;
        }
        if (threw == (shared || both)) bad("BarycentricVector(p,q)", cat(at, threw ? " throws" : " does not throw"));
        else if (!threw) {
          if (!okVec(w) || norm(value(w) - (value(q) - value(p))) > 1e-12) bad("BarycentricVector(p,q)", cat(at, " gives ", w));
        }
      }
  }
  bool same(const SurfacePoint& p, const SurfacePoint& q) { // q is a face point
    if (p.type == SurfacePointType::Face) return p.face == q.face && norm(p.faceCoords - q.faceCoords) < 1e-12;
    if (p.type == SurfacePointType::Vertex) return among(inFaceRef(q.face, p.vertex, Vector2(), Edge()), q.faceCoords);
    return among(edgeRef(q.face, p.edge, Vector2{1 - p.tEdge, p.tEdge}), q.faceCoords);
  }
  bool okVec(const BarycentricVector& w) {
    if (w.type == BarycentricVectorType::Vertex) return w.vertex != Vertex();
    if (w.type == BarycentricVectorType::Edge) return w.edge != Edge() && std::abs(w.edgeCoords.x + w.edgeCoords.y) < 1e-12;
    return w.face != Face() && std::abs(w.faceCoords.x + w.faceCoords.y + w.faceCoords.z) < 1e-9;
  }
  bool sameVec(const BarycentricVector& p, const BarycentricVector& q) {
    if (q.type != BarycentricVectorType::Face || !okVec(q)) return false;
    if (p.type == BarycentricVectorType::Face) return p.face == q.face && norm(p.faceCoords - q.faceCoords) < 1e-12;
    if (p.type == BarycentricVectorType::Vertex) return norm(q.faceCoords) == 0;
    return among(edgeRef(q.face, p.edge, p.edgeCoords), q.faceCoords);
  }
  Vector2 rot(Vector2 v, double a) { return {v.x * std::cos(a) - v.y * std::sin(a), v.x * std::sin(a) + v.y * std::cos(a)}; }
  void vectors(bool pairs) {
    for (auto& w : vecs) {
      ctx.eval();
      std::string at = cat("of ", w);
      w.validate();
      BarycentricVector q = w.inSomeFace();
      if (!inF(q.face, w) || !sameVec(w, q)) bad("vector inSomeFace", cat(at, " gives ", q));
      for (Face f : mesh.faces()) {
        ctx.transition();
        bool threw = false;
        BarycentricVector r;
        try {
          r = w.inFace(f);
        } catch (std::exception&) {
          threw = true;
        }
        if (threw == inF(f, w)) bad("vector inFace", cat(at, " into ", f, threw ? " throws" : " does not throw"));
        else if (!threw && (r.face != f || !sameVec(w, r))) bad("vector inFace", cat(at, " gives ", r));
      }
      for (Edge e : mesh.edges()) {
        bool threw = false;
        BarycentricVector r;
        try {
          r = w.inEdge(e);
        } catch (std::exception&) {
          threw = true;
        }
        if (threw == inE(e, w)) bad("vector inEdge", cat(at, " into ", e, threw ? " throws" : " does not throw"));
        else if (!threw && (r.type != BarycentricVectorType::Edge || r.edge != e || !okVec(r) || (w.type == BarycentricVectorType::Edge ? norm(r.edgeCoords - w.edgeCoords) : norm(r.edgeCoords)) > 0))
          bad("vector inEdge", cat(at, " gives ", r));
      }
      // length
      Vector2 x{0, 0};
      if (w.type == BarycentricVectorType::Edge) x = Vector2{L[w.edge.getIndex()] * w.edgeCoords.y, 0};
      if (w.type == BarycentricVectorType::Face) x = flat(w.face, w.faceCoords);
      double l2 = norm2(x);
      if (!near(w.norm2(g), l2) || !near(geometrycentral::surface::norm2(g, w), l2)) bad("norm2", cat(at, " is ", w.norm2(g), " not ", l2));
      if (!near(w.norm(g), std::sqrt(l2)) || !near(geometrycentral::surface::norm(g, w), std::sqrt(l2))) bad("norm", cat(at, " is ", w.norm(g)));
      // rotation: counter-clockwise in the face of the result, into which the vector points if it was an edge vector
      for (int k = -9; k <= 17; k++) {
        bool is90 = k == 17;
        double a = is90 ? PI / 2 : k * PI / 4 + (k % 2 ? .1 : 0);
        BarycentricVector r = is90 ? w.rotate90(g) : w.rotate(g, a);
        ctx.transition();
        std::string how = cat(is90 ? "rotate90" : "rotate");
        if (w.type == BarycentricVectorType::Vertex) {
          if (r.type != BarycentricVectorType::Vertex || r.vertex != w.vertex) bad(how, at);
          continue;
        }
        double full = std::fmod(std::fmod(a, 2 * PI) + 2 * PI, 2 * PI);
        bool along = std::abs(std::sin(a)) < 1e-9;
        if (!okVec(r) || r.type == BarycentricVectorType::Vertex || (r.type == BarycentricVectorType::Edge && !along)) {
          bad(how, cat(at, " by ", a, " gives ", r));
          continue;
        }
        if (r.type == BarycentricVectorType::Edge) {
          if (w.type != BarycentricVectorType::Edge || r.edge != w.edge || norm(r.edgeCoords - (std::cos(a) > 0 ? 1. : -1.) * w.edgeCoords) > 1e-9) bad(how, cat(at, " by ", a, " gives ", r));
          continue;
        }
        if (!inF(r.face, w)) {
          bad(how, cat(at, " by ", a, " lands in ", r.face));
          continue;
        }
        bool ok = false, into = along || !manifold || w.type == BarycentricVectorType::Face;
        std::vector<Vector3> from;
        if (w.type == BarycentricVectorType::Face) from.push_back(w.faceCoords);
        else from = edgeRef(r.face, w.edge, w.edgeCoords);
        for (auto& b : from) {
          Vector2 want = rot(flat(r.face, b), a), got = flat(r.face, r.faceCoords);
          if (norm(want - got) < 1e-9 * (1 + norm(want))) ok = true;
        }
        if (!ok) {
          bad(how, cat(at, " by ", a, " gives ", r, " of flat value ", flat(r.face, r.faceCoords)));
          continue;
        }
        if (w.type == BarycentricVectorType::Edge && !into) {
          // the side the rotated vector points into: the face left of the vector for angles below pi, right of it above
          for (int i = 0; i < 3; i++) {
            Halfedge h = corner[r.face.getIndex()][i];
            if (h.edge() != w.edge) continue;
            auto q = layout(r.face);
            Vector2 inward = (q[(i + 1) % 3] - q[i]).rotate90();
            if (dot(inward, flat(r.face, r.faceCoords)) > 0) into = true;
          }
          if (w.edge.isBoundary()) into = true;
          if (!into) bad(how + " side", cat(at, " by ", a, " gives ", r, " which points out of its face"));
        }
        (void)full;
      }
      // arithmetic with scalars
      for (double s : {2., -.5}) {
        BarycentricVector a = w * s, b = w / s, c = w, d = w, n = -w;
        BarycentricVector e = s * w;
        c *= s;
        d /= s;
        auto co = [](const BarycentricVector& v) { return v.type == BarycentricVectorType::Face ? v.faceCoords : v.type == BarycentricVectorType::Edge ? Vector3{v.edgeCoords.x, v.edgeCoords.y, 0} : Vector3::zero(); };
        auto el = [](const BarycentricVector& v) { return std::make_tuple(v.type, v.face, v.edge, v.vertex); };
        if (norm(co(a) - s * co(w)) > 1e-12 || norm(co(e) - s * co(w)) > 1e-12 || norm(co(c) - s * co(w)) > 1e-12 || norm(co(b) - co(w) / s) > 1e-12 || norm(co(d) - co(w) / s) > 1e-12 || norm(co(n) + co(w)) > 1e-12)
          bad("scalar arithmetic", at);
        if (el(a) != el(w) || el(b) != el(w) || el(c) != el(w) || el(d) != el(w) || el(e) != el(w) || el(n) != el(w)) bad("scalar arithmetic", at);
      }
      BarycentricVector z = w, y = w;
      z.faceCoords += Vector3::constant(.3);
      z.edgeCoords += Vector2::constant(.3);
      y = z.normalizedDisplacement();
      z.normalizeDisplacement();
      if (norm(value(z) - value(w)) > 1e-12 || norm(value(y) - value(w)) > 1e-12) bad("normalizeDisplacement", at);
    }
    if (!pairs) return;
    for (auto& u : vecs)
      for (auto& w : vecs) {
        ctx.transition();
        std::string at = cat(u, " and ", w);
        bool both = u.type == BarycentricVectorType::Vertex && w.type == BarycentricVectorType::Vertex && u.vertex == w.vertex;
        bool shared = false, es = false;
        for (Face f : mesh.faces()) shared |= inF(f, u) && inF(f, w);
        for (Edge e : mesh.edges()) es |= inE(e, u) && inE(e, w);
        Face f = sharedFace(u, w);
        if (f == Face() ? shared : !(inF(f, u) && inF(f, w))) bad("sharedFace of vectors", cat(at, " gives ", f));
        Edge e = sharedEdge(u, w);
        if (e == Edge() ? (es && !both) : !(inE(e, u) && inE(e, w))) bad("sharedEdge of vectors", cat(at, " gives ", e));
        BarycentricVector s, d, s2 = u, d2 = u;
        int threw = 0;
        double dt = 0;
        try { s = u + w; } catch (std::exception&) { threw |= 1; }
        try { d = u - w; } catch (std::exception&) { threw |= 2; }
        try { s2 += w; } catch (std::exception&) { threw |= 4; }
        try { d2 -= w; } catch (std::exception&) { threw |= 8; }
        try { dt = dot(g, u, w); } catch (std::exception&) { threw |= 16; }
        if (threw != (shared ? 0 : 31)) {
          bad("sum", cat(at, ": exceptions ", threw));
          continue;
        }
        ctx.outcome(shared ? "vectors share a face" : "vectors share no face");
        if (!shared) continue;
        if (!okVec(s) || norm(value(s) - value(u) - value(w)) > 1e-12 || !okVec(s2) || norm(value(s2) - value(u) - value(w)) > 1e-12) bad("sum", cat(at, " is ", s, " / ", s2));
        if (!okVec(d) || norm(value(d) - value(u) + value(w)) > 1e-12 || !okVec(d2) || norm(value(d2) - value(u) + value(w)) > 1e-12) bad("difference", cat(at, " is ", d, " / ", d2));
        if (embedded) {
          if (!near(dt, dot(value(u), value(w)))) bad("dot", cat(at, " is ", dt));
        } else if (u.type == BarycentricVectorType::Face && w.type == BarycentricVectorType::Face) {
          if (!near(dt, dot(flat(u.face, u.faceCoords), flat(u.face, w.faceCoords)))) bad("dot", cat(at, " is ", dt));
        }
        auto eq = u.type == w.type && (u.type == BarycentricVectorType::Vertex ? u.vertex == w.vertex : u.type == BarycentricVectorType::Edge ? u.edge == w.edge && u.edgeCoords == w.edgeCoords : u.face == w.face && u.faceCoords == w.faceCoords);
        if ((u == w) != eq || (u != w) == eq) bad("vector ==", at);
      }
  }
  void halfedges() {
    for (Face f : mesh.faces())
      for (int i = 0; i < 3; i++) {
        Halfedge h = corner[f.getIndex()][i];
        Vector3 b = Vector3::zero();
        b[i] -= 1;
        b[(i + 1) % 3] += 1;
        for (Halfedge g2 : h.edge().adjacentHalfedges()) {
          if (h.edge().firstVertex() == h.edge().secondVertex()) continue;
          bool same = g2.tailVertex() == h.tailVertex();
          BarycentricVector w(g2, f);
          if (w.type != BarycentricVectorType::Face || w.face != f || norm(w.faceCoords - (same ? 1. : -1.) * b) > 1e-12) bad("BarycentricVector(Halfedge,Face)", cat(g2, " in ", f, " is ", w));
        }
        // coordinate helpers
        if (halfedgeIndexInTriangle(h) != i) bad("halfedgeIndexInTriangle", cat(h));
        Vector3 x{.2, .3, .5}, toC = permuteBarycentricToCanonical(x, h), fromC = permuteBarycentricFromCanonical(x, h);
        for (int k = 0; k < 3; k++)
          if (toC[(k + i) % 3] != x[k] || fromC[k] != x[(k + i) % 3]) bad("permuteBarycentric", cat(h));
      }
    for (Face f : mesh.faces()) {
      auto q = layout(f);
      Vector3 opp{norm(q[2] - q[1]), norm(q[0] - q[2]), norm(q[1] - q[0])};
      for (int a = -2; a <= 2; a++)
        for (int b = -2; b <= 2; b++) {
          Vector3 w{.5 * a, .5 * b, -.5 * (a + b)};
          Vector2 x = flat(f, w);
          if (!near(displacementLength2(w, opp), norm2(x)) || !near(displacementLength(w, opp), norm(x))) bad("displacementLength", cat(w, " in ", f));
          if (norm(barycentricDisplacementToCartesian(q, w) - x) > 1e-9) bad("barycentricDisplacementToCartesian", cat(w));
          std::array<Vector2, 3> moved{q[0] + Vector2{1, 2}, q[1] + Vector2{1, 2}, q[2] + Vector2{1, 2}};
          if (norm(cartesianVectorToBarycentric(q, x) - w) > 1e-9 || norm(cartesianVectorToBarycentric(moved, x) - w) > 1e-9) bad("cartesianVectorToBarycentric", cat(x));
          for (int c = -2; c <= 2; c++) {
            Vector3 y{.5 * a, .5 * b, .5 * c};
            if (isInsideTriangle(y) != (a >= 0 && b >= 0 && c >= 0)) bad("isInsideTriangle", cat(y));
            Vector3 p = projectInsideTriangle(y), n = normalizeBarycentricDisplacement(y);
            if (std::abs(p.x + p.y + p.z - 1) > 1e-12 || p.x < 0 || p.y < 0 || p.z < 0) bad("projectInsideTriangle", cat(y, " gives ", p));
            if (a >= 0 && b >= 0 && c >= 0 && a + b + c > 0 && norm(p * (a + b + c) - 2 * y) > 1e-9) bad("projectInsideTriangle", cat(y, " gives ", p));
            if (std::abs(n.x + n.y + n.z) > 1e-12 || std::abs((n.x - n.y) - (y.x - y.y)) > 1e-12 || std::abs((n.x - n.z) - (y.x - y.z)) > 1e-12) bad("normalizeBarycentricDisplacement", cat(y));
            if (a + b + c != 0) {
              Vector3 m = normalizeBarycentric(y);
              if (norm(m * (a + b + c) - 2 * y) > 1e-9) bad("normalizeBarycentric", cat(y));
            }
          }
        }
      if (f.getIndex() > 3) break;
    }
  }
  void all(bool deep) {
    if (L.empty()) {
      L.resize(mesh.nEdges());
      for (Edge e : mesh.edges()) L[e.getIndex()] = norm(pos[e.firstVertex()] - pos[e.secondVertex()]);
    }
    ctx.trace();
    ctx.note(id);
    lattice(deep);
    ctx.state(hashStr(id));
    try {
      points(deep);
      vectors(deep);
      halfedges();
    } catch (std::exception& e) {
      bad("exception", e.what());
    }
  }
};

int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C27";
  o.technique = "exhaustive exploration of the real code: every lattice point, vector, face/edge target and pair on every bounded input mesh";
  o.level = "bounded-exhaustive";
  o.rule = "each point and vector is compared with brute-force incidence over face corners and with its planar layout or embedded position";
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    for (auto& s : suite::triShapes(th)) {
      if (!ctx.begin(s.name)) continue;
      suite::In in = suite::from(s);
      in.build();
      Case c(ctx, in.name, *in.mesh, *in.g, true, true);
      for (Vertex v : in.mesh->vertices()) c.pos[v] = in.p[v.getIndex()];
      c.all(in.P.size() <= (th ? 40 : 20));
    }
    // every oriented manifold complex on few vertices, and the same as a general mesh with its faces flipped in every way
    for (size_t n = 1; n <= (th ? 4 : 3); n++) {
      auto tris = gen::orientedPolys(th ? 5 : 5, 3);
      gen::multisets(tris.size(), n, [&](const std::vector<size_t>& pick) {
        gen::Polys P;
        std::set<std::set<size_t>> sets;
        for (size_t k : pick) {
          P.push_back(tris[k]);
          sets.insert(std::set<size_t>(tris[k].begin(), tris[k].end()));
        }
        if (sets.size() < P.size()) return;
        size_t nv = gen::maxVert(P);
        if (!gen::allReferenced(P)) return;
        if (!ctx.beginf([&] { return cat("complex ", mc::str(pick)); })) return;
        for (auto& f : P) std::rotate(f.begin(), f.begin() + pick[0] % 3, f.end());
        geo::Pts p;
        for (size_t v = 0; v <= nv; v++) p.push_back(Vector3{std::cos(2.4 * v) * 1.1, std::sin(2.4 * v), .6 * std::cos(1.3 * v)});
        auto e = geo::general(P, p);
        Case c(ctx, cat("complex ", mc::str(pick)), *e.mesh, *e.geom, true, false);
        for (Vertex v : e.mesh->vertices()) c.pos[v] = p[v.getIndex()];
        c.all(true);
      });
    }
    for (size_t nf = 1; nf <= 2; nf++)
      suite::glued(nf, th ? std::vector<double>{1, 1.5, 1.9} : std::vector<double>{1, 1.5}, true, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        in.build();
        Case c(ctx, in.name, *in.mesh, *in.g, false, true);
        c.L = in.L;
        for (Vertex v : in.mesh->vertices()) c.pos[v] = Vector3{1. + v.getIndex(), 2. - v.getIndex() * v.getIndex(), .5};
        c.all(false);
      });
  });
}
