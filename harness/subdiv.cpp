// C21: linear, Catmull-Clark and Loop subdivision: connectivity and every vertex position against the published rules, on
// all meshes of the suites, repeated.
#include "suite.h"
#include "refmesh.h"
#include "geometrycentral/surface/subdivide.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;

// reference: polygon lists only
struct Ref {
  gen::Polys P;
  geo::Pts p;
  typedef std::pair<size_t, size_t> Key;
  static Key key(size_t a, size_t b) { return {std::min(a, b), std::max(a, b)}; }
  std::map<Key, std::vector<size_t>> edges; // adjacent faces
  std::vector<std::set<size_t>> vf, vn, bn; // faces, neighbors, boundary neighbors of a vertex
  void build() {
    edges.clear();
    vf.assign(p.size(), {});
    vn = bn = vf;
    for (size_t f = 0; f < P.size(); f++)
      for (size_t i = 0; i < P[f].size(); i++) {
        size_t a = P[f][i], b = P[f][(i + 1) % P[f].size()];
        edges[key(a, b)].push_back(f);
        vf[a].insert(f);
        vn[a].insert(b);
        vn[b].insert(a);
      }
    for (auto& e : edges)
      if (e.second.size() == 1) {
        bn[e.first.first].insert(e.first.second);
        bn[e.first.second].insert(e.first.first);
      }
  }
  bool simplicial() const {
    for (auto& f : P)
      if (std::set<size_t>(f.begin(), f.end()).size() != f.size()) return false;
    for (auto& e : edges)
      if (e.second.size() > 2 || (e.second.size() == 2 && e.second[0] == e.second[1])) return false;
    for (size_t v = 0; v < p.size(); v++)
      if (bn[v].size() > 2) return false;
    std::set<std::set<size_t>> s; // two faces on the same corners cannot be told apart here
    for (auto& f : P)
      if (!s.insert(std::set<size_t>(f.begin(), f.end())).second) return false;
    return true;
  }
  // 0 linear, 1 Catmull-Clark, 2 Loop; new vertices: originals, then edges (in key order), then faces
  Ref next(int scheme) const {
    Ref r;
    std::map<Key, size_t> ei;
    std::vector<Vector3> fp;
    for (auto& f : P) {
      Vector3 c{0, 0, 0};
      for (size_t v : f) c += p[v];
      fp.push_back(c / (double)f.size());
    }
    for (size_t v = 0; v < p.size(); v++) {
      Vector3 x = p[v];
      double n = (double)vn[v].size();
      if (scheme && bn[v].size()) {
        x = .75 * p[v];
        for (size_t w : bn[v]) x += p[w] / 8.;
      } else if (scheme == 1) {
        Vector3 F{0, 0, 0}, R{0, 0, 0};
        for (size_t f : vf[v]) F += fp[f] / n;
        for (size_t w : vn[v]) R += .5 * (p[v] + p[w]) / n;
        x = (F + 2. * R + (n - 3) * p[v]) / n;
      } else if (scheme == 2) {
        double b = n == 3 ? 3. / 16 : 3. / (8 * n);
        x = (1 - n * b) * p[v];
        for (size_t w : vn[v]) x += b * p[w];
      }
      r.p.push_back(x);
    }
    for (auto& e : edges) {
      ei[e.first] = r.p.size();
      Vector3 a = p[e.first.first], b = p[e.first.second], x = .5 * (a + b);
      if (e.second.size() == 2 && scheme == 1) x = (a + b + fp[e.second[0]] + fp[e.second[1]]) / 4.;
      if (e.second.size() == 2 && scheme == 2) {
        x = 3. / 8 * (a + b);
        for (size_t f : e.second)
          for (size_t v : P[f])
            if (v != e.first.first && v != e.first.second) x += p[v] / 8.;
      }
      r.p.push_back(x);
    }
    for (size_t f = 0; f < P.size(); f++) {
      size_t n = P[f].size(), c = r.p.size();
      if (scheme < 2) r.p.push_back(fp[f]);
      std::vector<size_t> mid;
      for (size_t i = 0; i < n; i++) {
        size_t v = P[f][i], a = ei[key(v, P[f][(i + 1) % n])], b = ei[key(v, P[f][(i + n - 1) % n])];
        if (scheme < 2) r.P.push_back({v, a, c, b});
        else r.P.push_back({v, a, b});
        mid.push_back(a);
      }
      if (scheme == 2) r.P.push_back(mid);
    }
    r.build();
    return r;
  }
};
static std::vector<size_t> rot(std::vector<size_t> f) {
  std::rotate(f.begin(), std::min_element(f.begin(), f.end()), f.end());
  return f;
}
struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  // one step; `lab` are the reference indices of the mesh's vertices, updated
  bool step(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& g, VertexData<size_t>& lab, Ref& ref, int scheme, bool manager) {
    static const char* name[] = {"linear", "Catmull-Clark", "Loop"};
    std::string k = name[scheme];
    if (!ref.simplicial()) return false;
    Ref want = ref.next(scheme);
    size_t nV = ref.p.size(), nE = ref.edges.size();
    VertexData<size_t> tag(mesh, INVALID_IND); // default for new ones
    for (Vertex v : mesh.vertices()) tag[v] = lab[v];
    size_t splits = 0;
    ctx.transition();
    if (scheme == 0) linearSubdivide(mesh, g);
    else if (scheme == 1) catmullClarkSubdivide(mesh, g);
    else if (manager) {
      MutationManager mm(mesh, g);
      mm.registerEdgeSplitPostHandler([&](Halfedge, Halfedge, double) { splits++; });
      loopSubdivide(mesh, g, mm);
      if (splits != nE) bad(k + ": number of edge splits reported", cat(splits, " for ", nE, " edges"));
    } else loopSubdivide(mesh, g);
    try {
      mesh.validateConnectivity();
    } catch (std::exception& e) {
      bad(k + ": connectivity", e.what());
      return false;
    }
    if (!mesh.isCompressed()) bad(k + ": not compressed", "");
    if (mesh.nVertices() != want.p.size() || mesh.nFaces() != want.P.size()) {
      bad(k + ": number of elements", cat(mesh.nVertices(), " vertices and ", mesh.nFaces(), " faces, should be ", want.p.size(), " and ", want.P.size()));
      return false;
    }
    // name the new vertices after what they came from
    std::map<Ref::Key, size_t> ei;
    {
      size_t i = nV;
      for (auto& e : ref.edges) ei[e.first] = i++;
    }
    std::vector<Vertex> inner;
    for (Vertex v : mesh.vertices()) {
      if (tag[v] != INVALID_IND) continue;
      std::vector<size_t> n;
      for (Vertex w : v.adjacentVertices())
        if (tag[w] != INVALID_IND && tag[w] < nV) n.push_back(tag[w]);
      if (n.size() == 2 && ei.count(Ref::key(n[0], n[1]))) tag[v] = ei[Ref::key(n[0], n[1])];
      else inner.push_back(v);
    }
    std::map<std::set<size_t>, std::vector<size_t>> byMid;
    for (size_t f = 0; f < ref.P.size(); f++) {
      std::set<size_t> m;
      for (size_t i = 0; i < ref.P[f].size(); i++) m.insert(ei[Ref::key(ref.P[f][i], ref.P[f][(i + 1) % ref.P[f].size()])]);
      byMid[m].push_back(nV + nE + f);
    }
    for (Vertex v : inner) {
      std::set<size_t> m;
      for (Vertex w : v.adjacentVertices()) m.insert(tag[w]);
      auto it = byMid.find(m);
      if (it == byMid.end() || it->second.empty()) {
        bad(k + ": vertex which belongs to no vertex, edge or face", cat(v));
        return false;
      }
      tag[v] = it->second.back();
      it->second.pop_back();
    }
    std::multiset<std::vector<size_t>> A, B;
    for (Face f : mesh.faces()) {
      std::vector<size_t> t;
      for (Vertex v : f.adjacentVertices()) t.push_back(tag[v]);
      A.insert(rot(t));
    }
    for (auto& f : want.P) B.insert(rot(f));
    if (A != B) {
      // the two faces of a closed double polygon have the same edges, so their centers may be exchanged
      bad(k + ": faces", "are not those of the scheme");
      return false;
    }
    for (Vertex v : mesh.vertices()) {
      Vector3 d = g.inputVertexPositions[v] - want.p[tag[v]], d2 = g.vertexPositions[v] - want.p[tag[v]];
      if (!(norm(d) < 1e-9 && norm(d2) < 1e-9)) {
        size_t t = tag[v];
        bool bd = t < nV ? ref.bn[t].size() > 0 : v.isBoundary();
        bad(k + ": position of " + (bd ? "boundary " : "") + (t < nV ? "vertex" : t < nV + nE ? "edge point" : "face point"), cat(g.inputVertexPositions[v], " should be ", want.p[t]));
      }
    }
    lab = VertexData<size_t>(mesh);
    for (Vertex v : mesh.vertices()) lab[v] = tag[v];
    ref = want;
    ctx.outcome(cat(k, mesh.nBoundaryLoops() ? ", with boundary" : ", closed"));
    ctx.eval();
    return true;
  }
};
static void go(Ctx& ctx, const std::string& name, const gen::Polys& P, const geo::Pts& p, bool punch) {
  Ref R0;
  R0.P = P;
  R0.p = p;
  R0.build();
  if (!R0.simplicial()) return;
  bool tri = true;
  for (auto& f : P) tri &= f.size() == 3;
  if (punch && !tri) return;
  for (int w = 0; w < 27; w++) { // words of two or three schemes (3: none)
    int s[3] = {w % 3, w / 3 % 3, w / 9};
    size_t len = P.size() > 12 && !ctx.thorough ? 1 : P.size() > 6 || !ctx.thorough ? 2 : 3;
    bool dup = false;
    for (size_t i = len; i < 3; i++) dup |= s[i] != 0;
    if (dup) continue;
    bool skip = false;
    bool t = tri;
    for (size_t i = 0; i < len; i++) {
      if (s[i] == 2 && !t) skip = true;
      if (s[i] != 2) t = false;
    }
    if (skip) continue;
    std::string id = name + (punch ? "-holes" : "");
    for (size_t i = 0; i < len; i++) id += cat("-", "lcL"[s[i]]);
    if (!ctx.begin(id)) continue;
    Case c{ctx, id, {}};
    ctx.state(hashStr(id));
    std::unique_ptr<ManifoldSurfaceMesh> mesh;
    std::unique_ptr<VertexPositionGeometry> g;
    Ref R = R0;
    suite::In in;
    if (punch) {
      in.P = P;
      in.p = p;
      in.build();
      if (!suite::punch(in)) continue;
      mesh = std::move(in.mesh);
      g = std::move(in.vpg);
      VertexData<size_t> n(*mesh);
      R.p.clear();
      R.P.clear();
      for (Vertex v : mesh->vertices()) {
        n[v] = R.p.size();
        R.p.push_back(g->inputVertexPositions[v]);
      }
      for (Face f : mesh->faces()) {
        R.P.push_back({});
        for (Vertex v : f.adjacentVertices()) R.P.back().push_back(n[v]);
      }
      R.build();
      if (!R.simplicial()) continue;
    } else {
      auto e = geo::manifold(P, p);
      mesh = std::move(e.mesh);
      g = std::move(e.geom);
    }
    g->requireVertexPositions();
    VertexData<size_t> lab(*mesh);
    size_t i = 0;
    for (Vertex v : mesh->vertices()) lab[v] = i++;
    for (size_t k = 0; k < len; k++)
      if (!c.step(*mesh, *g, lab, R, s[k], (k + w) % 2)) break;
  }
}
int main(int argc, char** argv) {
  Options o;
  o.property = "C21";
  o.technique = "explicit enumeration of meshes and words of subdivision steps against a reference on face lists";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "faces or a vertex position which are not those of the scheme";
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    for (auto& s : suite::triShapes(ctx.thorough)) {
      go(ctx, s.name, s.P, s.p, false);
      go(ctx, s.name, s.P, s.p, true);
    }
    for (int k = 0; k < 3; k++) {
      geo::Shape s = geo::planarGrid(1 + k, 2, 0);
      go(ctx, s.name + "q", s.P, s.p, false);
      auto j = suite::jitter(s, .6);
      go(ctx, j.name + "q", j.P, j.p, false);
    }
    // polygonal meshes: cube, prisms, pyramids
    for (size_t n = 3; n <= 6; n++) {
      gen::Polys P, Q;
      geo::Pts p, q;
      for (size_t z = 0; z < 2; z++)
        for (size_t i = 0; i < n; i++) p.push_back(Vector3{std::cos(2 * geo::PI * i / n) + .1 * (i % 3), std::sin(2 * geo::PI * i / n), z + .2 * (i % 2)});
      std::vector<size_t> bot, top;
      for (size_t i = 0; i < n; i++) {
        P.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
        bot.push_back(n - 1 - i);
        top.push_back(n + i);
      }
      go(ctx, cat("tube", n), P, p, false);
      P.push_back(top);
      go(ctx, cat("cup", n), P, p, false);
      P.push_back(bot);
      go(ctx, cat("prism", n), P, p, false);
      q = geo::Pts(p.begin(), p.begin() + n);
      q.push_back(Vector3{.2, .1, 2});
      for (size_t i = 0; i < n; i++) Q.push_back({i, (i + 1) % n, n});
      Q.push_back(bot);
      go(ctx, cat("pyramid", n), Q, q, false);
    }
    // all small polygon soups that are manifold, in irregular positions
    size_t count = 0;
    auto each = [&](const gen::Polys& P) {
      size_t n = gen::maxVert(P) + 1;
      gen::HS hs;
      if (!gen::allReferenced(P) || !gen::connected(P) || !gen::manifoldFromPolys(P, hs).empty()) return;
      geo::Pts p;
      for (size_t i = 0; i < n; i++) p.push_back(Vector3{(double)((i * 5 + 2) % 7), (double)((i * 3 + 1) % 5) + .2 * i, (double)((i * i) % 4)});
      go(ctx, cat("soup", count++), P, p, false);
    };
    gen::Polys A = gen::orientedPolys(4, 3), B = gen::orientedPolys(5, 3);
    for (auto& f : gen::orientedPolys(4, 4)) A.push_back(f);
    for (auto& f : gen::orientedPolys(5, 4)) B.push_back(f);
    for (size_t k = 1; k <= 4; k++) {
      auto use = [&](const gen::Polys& X) {
        gen::multisets(X.size(), k, [&](const std::vector<size_t>& m) {
          gen::Polys P;
          for (size_t i : m) P.push_back(X[i]);
          each(P);
        });
      };
      use(A);
      if (k <= (ctx.thorough ? 3u : 2u)) use(B);
    }
  });
}
