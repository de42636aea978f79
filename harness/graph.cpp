// C18: shortest edge paths, Dijkstra balls, disjoint sets, nearest neighbors: every pair of vertices / every history of
// merges and marks up to a depth / every query on lattice point sets, against brute force.
#include "suite.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "geometrycentral/utilities/disjoint_sets.h"
#include "geometrycentral/utilities/knn.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;

static const double INF = std::numeric_limits<double>::infinity();

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  Case(Ctx& c, std::string i) : ctx(c), id(i) {}

  void paths(SurfaceMesh& mesh, IntrinsicGeometryInterface& g, const EdgeData<double>& L, bool path) {
    std::map<std::pair<size_t, size_t>, double> D;
    auto at = [&](Vertex a, Vertex b) -> double& {
      auto it = D.emplace(std::make_pair(a.getIndex(), b.getIndex()), INF);
      return it.first->second;
    };
    for (Vertex v : mesh.vertices()) at(v, v) = 0;
    for (Edge e : mesh.edges()) {
      Vertex a = e.firstVertex(), b = e.secondVertex();
      at(a, b) = std::min(at(a, b), L[e]);
      at(b, a) = std::min(at(b, a), L[e]);
    }
    for (Vertex k : mesh.vertices())
      for (Vertex a : mesh.vertices())
        for (Vertex b : mesh.vertices()) at(a, b) = std::min(at(a, b), at(a, k) + at(k, b));
    std::set<double> radii{0, -1, 1e9};
    for (Vertex a : mesh.vertices())
      for (Vertex b : mesh.vertices())
        if (std::isfinite(at(a, b))) {
          radii.insert(at(a, b) * (1 + 1e-9));
          radii.insert(at(a, b) * (1 - 1e-6));
          if (radii.size() > 60) break;
        }
    for (Vertex a : mesh.vertices()) {
      if (path)
        for (Vertex b : mesh.vertices()) {
          ctx.transition();
          std::vector<Halfedge> p = shortestEdgePath(g, a, b);
          if (a == b || std::isinf(at(a, b))) {
            if (p.size()) bad("path that does not exist", cat(a, " ", b));
            continue;
          }
          Vertex x = a;
          double len = 0;
          for (Halfedge h : p) {
            if (h.tailVertex() != x) {
              bad("path is broken", cat(a, " ", b));
              break;
            }
            x = h.tipVertex();
            len += L[h.edge()];
          }
          if (x != b) bad("path ends elsewhere", cat(a, " ", b, " ends at ", x));
          if (!close(len, at(a, b), 1e-9)) bad("path is not shortest", cat(a, " ", b, " length ", len, " shortest ", at(a, b)));
          ctx.eval();
        }
      for (double r : radii) {
        ctx.transition();
        auto m = vertexDijkstraDistanceWithinRadius(g, a, r);
        for (Vertex b : mesh.vertices()) {
          bool inside = at(a, b) <= r || a == b;
          if (std::abs(at(a, b) - r) < 1e-12 && a != b) continue;
          auto it = m.find(b);
          if (inside != (it != m.end())) bad("ball", cat("around ", a, " radius ", r, inside ? " lacks " : " includes ", b));
          else if (inside && !close(it->second, at(a, b), 1e-9)) bad("ball distance", cat("of ", b, " from ", a, " is ", it->second, " should be ", at(a, b)));
        }
        for (auto& x : m)
          if (x.first.getMesh() != &mesh) bad("ball of another mesh", "");
        ctx.eval();
      }
    }
    g.purgeQuantities();
    if (!dynamic_cast<EdgeLengthGeometry*>(&g) && g.edgeLengths.size()) bad("the searches keep edge lengths required", "");
    ctx.outcome("mesh");
  }
  // all words of merges and marks
  void sets(size_t n, size_t depth, bool marked) {
    struct Op {
      int kind;
      size_t a, b;
    };
    std::vector<Op> ops;
    for (size_t a = 0; a < n; a++)
      for (size_t b = 0; b < n; b++) ops.push_back({0, a, b});
    if (marked)
      for (size_t a = 0; a < n; a++) {
        ops.push_back({1, a, 0});
        ops.push_back({2, a, 0});
      }
    std::vector<size_t> w;
    std::function<void()> rec = [&]() {
      DisjointSets s(n);
      MarkedDisjointSets m(n);
      std::vector<size_t> ref(n);
      std::vector<char> mk(n, 0);
      for (size_t i = 0; i < n; i++) ref[i] = i;
      std::string name;
      for (size_t k : w) {
        auto& o = ops[k];
        name += cat(o.kind, o.a, o.b, " ");
        if (o.kind == 0) {
          s.merge(o.a, o.b);
          m.merge(o.a, o.b);
          size_t x = ref[o.a], y = ref[o.b];
          bool any = false;
          for (size_t i = 0; i < n; i++) any |= mk[i] && (ref[i] == x || ref[i] == y);
          for (size_t i = 0; i < n; i++)
            if (ref[i] == x || ref[i] == y) {
              ref[i] = x;
              mk[i] = any;
            }
        } else {
          if (o.kind == 1) m.mark(o.a);
          else m.unmark(o.a);
          for (size_t i = 0; i < n; i++)
            if (ref[i] == ref[o.a]) mk[i] = o.kind == 1;
        }
        ctx.transition();
      }
      // finding must not change anything: every order of two finds
      for (size_t a = 0; a < n; a++) {
        for (size_t b = 0; b < n; b++) {
          if ((s.find(a) == s.find(b)) != (ref[a] == ref[b])) bad("sets", name);
          if ((m.find(a) == m.find(b)) != (ref[a] == ref[b])) bad("marked sets", name);
        }
        if (s.find(a) >= n || ref[s.find(a)] != ref[a]) bad("representative outside its set", name);
        if (m.isMarked(a) != (mk[a] != 0)) bad("marks", name);
      }
      ctx.eval();
      if (w.size() < depth)
        for (size_t k = 0; k < ops.size(); k++) {
          w.push_back(k);
          rec();
          w.pop_back();
        }
    };
    rec();
    ctx.outcome("sets");
  }
  void nearest(const std::vector<Vector3>& P, const std::vector<Vector3>& queries) {
    NearestNeighborFinder f(P);
    auto dist = [&](Vector3 q, size_t i) { return norm(P[i] - q); };
    auto judge = [&](const std::string& what, Vector3 q, const std::vector<size_t>& r, size_t k, size_t skip) {
      ctx.transition();
      std::set<size_t> u(r.begin(), r.end());
      if (r.size() != k || u.size() != k) {
        bad(what, cat("returns ", r.size(), " (", u.size(), " different) of ", k));
        return;
      }
      std::vector<double> all, got;
      for (size_t i = 0; i < P.size(); i++)
        if (i != skip) all.push_back(dist(q, i));
      std::sort(all.begin(), all.end());
      for (size_t i : r) {
        if (i >= P.size() || i == skip) {
          bad(what, cat("returns index ", i));
          return;
        }
        got.push_back(dist(q, i));
      }
      std::sort(got.begin(), got.end());
      for (size_t i = 0; i < k; i++)
        if (!close(got[i], all[i], 1e-12)) {
          bad(what, cat("query ", q, " k ", k, ": the ", i, "th distance ", got[i], " should be ", all[i]));
          return;
        }
      ctx.eval();
    };
    for (size_t k = 1; k <= P.size(); k++)
      for (auto& q : queries) judge("kNearest", q, f.kNearest(q, k), k, INVALID_IND);
    for (size_t k = 0; k < P.size(); k++)
      for (size_t i = 0; i < P.size(); i++) judge("kNearestNeighbors", P[i], f.kNearestNeighbors(i, k), k, i);
    for (auto& q : queries) {
      bool t = false;
      try {
        f.kNearest(q, P.size() + 1);
      } catch (std::exception&) {
        t = true;
      }
      if (!t) bad("too many neighbors", "accepted");
      for (double r : {0., .4, .75, 1.2, 1.9, 100.}) {
        ctx.transition();
        auto R = f.radiusSearch(q, r);
        std::set<size_t> u(R.begin(), R.end());
        if (u.size() != R.size()) bad("radiusSearch twice", cat(q));
        for (size_t i = 0; i < P.size(); i++) {
          if (std::abs(dist(q, i) - r) < 1e-9) continue;
          if ((dist(q, i) < r) != (u.count(i) > 0)) bad("radiusSearch", cat(q, " radius ", r, " point ", i, " at ", dist(q, i)));
        }
      }
    }
    bool t = false;
    try {
      f.kNearestNeighbors(0, P.size());
    } catch (std::exception&) {
      t = true;
    }
    if (!t) bad("too many neighbors of a point", "accepted");
    ctx.outcome("points");
  }
};

int main(int argc, char** argv) {
  Options o;
  o.property = "C18";
  o.technique = "explicit enumeration of meshes, vertex pairs, radii, histories of merges and marks, and point sets, against brute force";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "a path that is not a shortest one, a wrong ball, partition, mark or set of neighbors";
  return run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    for (auto& s : suite::triShapes(T))
      for (int variant = 0; variant < 3; variant++) {
        std::string id = cat(s.name, "#", variant);
        if (!ctx.begin(id)) continue;
        Case c(ctx, id);
        if (variant == 1) { // general mesh, some faces reversed
          auto P = s.P;
          for (size_t i = 0; i < P.size(); i += 3) std::reverse(P[i].begin(), P[i].end());
          auto e = geo::general(P, s.p);
          e.geom->requireEdgeLengths();
          EdgeData<double> L = e.geom->edgeLengths;
          e.geom->unrequireEdgeLengths();
          c.paths(*e.mesh, *e.geom, L, false);
          continue;
        }
        suite::In in = suite::from(s);
        in.build();
        if (variant == 2 && !suite::punch(in)) continue;
        c.paths(*in.mesh, *in.g, in.M->L, true);
        ctx.state(hashStr(id));
      }
    for (auto& s : {geo::planarGrid(2, 3, 0), geo::planarGrid(3, 3, 0, true), geo::cylinder(4, 2, 0), geo::torus(4, 3, 0)}) {
      if (!ctx.begin(s.name + "#polygons")) continue;
      auto e = geo::manifold(s.P, s.p);
      e.geom->requireEdgeLengths();
      EdgeData<double> L = e.geom->edgeLengths;
      e.geom->unrequireEdgeLengths();
      Case c(ctx, s.name + "#polygons");
      c.paths(*e.mesh, *e.geom, L, true);
    }
    if (ctx.begin("two components")) {
      gen::Polys P{{0, 1, 2}, {3, 4, 5}, {3, 5, 6}};
      geo::Pts p{{0, 0, 0}, {1, 0, 0}, {.3, 1, 0}, {3, 0, 0}, {4, 0, 0}, {4, 1, 1}, {3, 1, 0}};
      auto e = geo::manifold(P, p);
      e.geom->requireEdgeLengths();
      EdgeData<double> L = e.geom->edgeLengths;
      e.geom->unrequireEdgeLengths();
      Case c(ctx, "two components");
      c.paths(*e.mesh, *e.geom, L, true);
    }
    for (size_t nf = 1; nf <= 3; nf++)
      suite::glued(nf, nf < 3 ? std::vector<double>{1, 1.3, 1.7} : std::vector<double>{1, 1.6}, true, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        in.build();
        Case c(ctx, in.name);
        c.paths(*in.mesh, *in.g, in.M->L, true);
        ctx.state(hashStr(in.name));
      });
    for (size_t n = 1; n <= 5; n++)
      for (int m = 0; m < 2; m++) {
        size_t depth = n <= 2 ? 6 : n == 3 ? (T ? 6 : 5) : n == 4 ? (T ? 5 : 4) : (T ? 4 : 3);
        std::string id = cat("sets", n, m ? "m" : "");
        if (!ctx.begin(id)) continue;
        Case c(ctx, id);
        c.sets(n, depth, m);
        ctx.state(hashStr(id));
      }
    // long chains of merges, all orders of 6 merges forming a tree on 7 elements are too many: chains and stars in both directions
    for (int kind = 0; kind < 8; kind++) {
      std::string id = cat("long", kind);
      if (!ctx.begin(id)) continue;
      Case c(ctx, id);
      size_t n = 64;
      DisjointSets s(n);
      MarkedDisjointSets m(n);
      m.mark(kind * 7);
      for (size_t step = 1, i = 0; step < n; step *= 2)
        for (i = 0; i + step < n; i += 2 * step) {
          size_t a = kind & 1 ? i : i + step - 1, b = kind & 2 ? i + step : i + 2 * step - 1;
          if (kind & 4) std::swap(a, b);
          s.merge(a, b);
          m.merge(a, b);
          for (size_t x = 0; x < n; x++)
            for (size_t y = 0; y < n; y++) {
              size_t done = i + 2 * step; // blocks of 2 * step up to here
              auto blk = [&](size_t z) { return z < done ? z / (2 * step) * 2 * step * 2 : z / step * step * 2 + 1; };
              if ((s.find(x) == s.find(y)) != (blk(x) == blk(y))) c.bad("sets", cat(x, " ", y));
              if (y == (size_t)kind * 7 && m.isMarked(x) != (blk(x) == blk(y))) c.bad("marks", cat(x, " ", y));
            }
        }
      ctx.outcome("sets");
    }
    // points: subsets of a lattice, with repeated points
    geo::Pts lat = geo::lattice(2, 2, 2);
    std::vector<Vector3> queries = lat;
    queries.push_back({.5, .5, .5});
    queries.push_back({-.7, .3, .2});
    queries.push_back({5, 5, 5});
    for (size_t mask = 1; mask < 256; mask++)
      for (int dup = 0; dup < 3; dup++) {
        std::string id = cat("points", mask, "x", dup);
        if (!ctx.begin(id)) continue;
        std::vector<Vector3> P;
        for (int i = 0; i < 8; i++)
          if (mask >> i & 1)
            for (int k = 0; k < (dup == 1 ? 2 : dup == 2 && i == 3 ? 5 : 1); k++) P.push_back(lat[i]);
        Case c(ctx, id);
        c.nearest(P, queries);
        ctx.state(hashStr(id));
      }
    for (size_t n : {11, 12, 25, 60}) { // more points than fit in one leaf of a tree
      std::string id = cat("many", n);
      if (!ctx.begin(id)) continue;
      std::vector<Vector3> P;
      for (size_t i = 0; i < n; i++) P.push_back(Vector3{(i * 7 % 10) / 5., (i * 3 % 11) / 5., (i * 5 % 13) / 6.});
      Case c(ctx, id);
      c.nearest(P, queries);
    }
  });
}
