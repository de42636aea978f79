// C29: level sets of piecewise linear functions (marching triangles): every assignment of small integer values (which puts
// the level on vertices, edges and whole faces) to the vertices of small meshes, against the face-by-face definition.
#include "suite.h"
#include "geometrycentral/surface/marching_triangles.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;

struct Node { // a vertex, or a place inside an edge
  bool isV;
  size_t i;
  bool operator<(const Node& o) const { return std::tie(isV, i) < std::tie(o.isV, o.i); }
  bool operator==(const Node& o) const { return isV == o.isV && i == o.i; }
};
static std::string show(Node n) { return cat(n.isV ? "v" : "e", n.i); }
struct Case {
  Ctx& ctx;
  std::string id;
  SurfaceMesh& mesh;
  IntrinsicGeometryInterface& g;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  typedef std::pair<Node, Node> Seg;
  void level(const VertexData<double>& u, double iso) {
    std::string what;
    for (Vertex v : mesh.vertices()) what += cat(u[v], " ");
    what += cat("level ", iso);
    // segments inside faces with direction, segments along edges with the directions their faces ask for
    std::map<Seg, int> inner;
    std::map<size_t, std::set<int>> along; // edge -> directions (+1 first to second vertex)
    std::set<size_t> flatEdge;
    bool onVertex = false;
    for (Face f : mesh.faces()) {
      std::vector<Halfedge> H;
      for (Halfedge h : f.adjacentHalfedges()) H.push_back(h);
      int zeros = 0;
      for (auto h : H) zeros += u[h.tailVertex()] == iso;
      onVertex |= zeros > 0;
      if (zeros == 3) {
        for (auto h : H) flatEdge.insert(h.edge().getIndex());
        continue;
      }
      if (zeros == 2) {
        for (int k = 0; k < 3; k++)
          if (u[H[k].tailVertex()] == iso && u[H[k].tipVertex()] == iso) {
            double c = u[H[k].next().tipVertex()];
            // smaller values on the left of the curve (seen along this face): the face is on the left of its own halfedge
            bool fw = (c < iso) == (H[k].tailVertex() == H[k].edge().firstVertex());
            along[H[k].edge().getIndex()].insert(fw ? 1 : -1);
          }
        continue;
      }
      // walking around the boundary, the level is left behind going up and down once each
      std::vector<Node> up, down;
      for (auto h : H) {
        double a = u[h.tailVertex()] - iso, b = u[h.tipVertex()] - iso;
        if (a < 0 && b > 0) up.push_back({false, h.edge().getIndex()});
        if (a > 0 && b < 0) down.push_back({false, h.edge().getIndex()});
        if (b == 0) {
          double c = u[h.next().tipVertex()] - iso;
          if (a < 0 && c > 0) up.push_back({true, h.tipVertex().getIndex()});
          if (a > 0 && c < 0) down.push_back({true, h.tipVertex().getIndex()});
        }
      }
      // counterclockwise walk leaves the smaller part at `up`: the part below has boundary ... up, then the curve back to down
      if (up.size() == 1 && down.size() == 1) inner[{up[0], down[0]}]++;
    }
    ctx.transition();
    std::vector<std::vector<SurfacePoint>> C = marchingTriangles(g, u, iso);
    std::map<Seg, int> left = inner;
    std::map<std::pair<size_t, size_t>, int> got;
    std::vector<std::pair<Node, Node>> ends;
    for (auto& c : C) {
      if (c.size() < 2) {
        bad("curve of one point", what);
        continue;
      }
      std::vector<Node> N;
      for (auto& p : c) {
        if (p.type == SurfacePointType::Vertex) {
          N.push_back({true, p.vertex.getIndex()});
          if (u[p.vertex] != iso) bad("vertex not on the level", cat(p, " of ", what));
        } else if (p.type == SurfacePointType::Edge) {
          double a = u[p.edge.firstVertex()], b = u[p.edge.secondVertex()];
          if (p.tEdge < 1e-12 && a == iso) N.push_back({true, p.edge.firstVertex().getIndex()});
          else if (p.tEdge > 1 - 1e-12 && b == iso) N.push_back({true, p.edge.secondVertex().getIndex()});
          else {
            N.push_back({false, p.edge.getIndex()});
            if (!(p.tEdge > 0 && p.tEdge < 1 && std::abs(a + p.tEdge * (b - a) - iso) < 1e-9 * (1 + std::abs(a) + std::abs(b)))) bad("edge point not on the level", cat(p, " of ", what));
          }
        } else {
          bad("point in a face", what);
          return;
        }
      }
      bool skip = false;
      for (size_t k = 0; k + 1 < N.size(); k++) {
        Node a = N[k], b = N[k + 1];
        auto it = left.find({a, b});
        if (it != left.end() && it->second > 0) {
          it->second--;
          continue;
        }
        if (a.isV && b.isV) { // along an edge
          bool found = false;
          for (Edge e : mesh.edges()) {
            size_t i = e.firstVertex().getIndex(), j = e.secondVertex().getIndex();
            found |= ((i == a.i && j == b.i) || (i == b.i && j == a.i)) && (along.count(e.getIndex()) || flatEdge.count(e.getIndex()));
          }
          if (found) got[{a.i, b.i}]++;
          if (found) continue;
        }
        bad(inner.count({b, a}) ? "segment reversed or repeated" : inner.count({a, b}) ? "segment repeated" : a == b ? "segment of length zero" : "segment which is not part of the level set", cat(show(a), " to ", show(b), " of ", what));
        skip = true;
      }
      if (!skip && !(N.front() == N.back())) ends.push_back({N.front(), N.back()});
    }
    for (auto& x : left)
      if (x.second > 0) {
        bad("segment missing", cat(show(x.first.first), " to ", show(x.first.second), " of ", what));
        break;
      }
    // edges in the level set: each once, in the direction its faces ask for (if they agree)
    std::map<std::pair<size_t, size_t>, std::array<int, 4>> need; // forward, backward, either, optional
    for (Edge e : mesh.edges()) {
      size_t i = e.firstVertex().getIndex(), j = e.secondVertex().getIndex(), k = e.getIndex();
      if (!along.count(k) && !flatEdge.count(k)) continue;
      auto& w = need[{std::min(i, j), std::max(i, j)}];
      if (!along.count(k)) w[3]++;
      else if (along[k].size() == 2) w[2]++;
      else w[(*along[k].begin() == 1) == (i < j) ? 0 : 1]++;
    }
    for (auto& x : need) {
      auto& w = x.second;
      int f = got[x.first], b = got[{x.first.second, x.first.first}];
      if (f + b < w[0] + w[1] + w[2]) bad("segment along an edge missing", cat("v", x.first.first, " v", x.first.second, " of ", what));
      else if (f + b > w[0] + w[1] + w[2] + w[3]) bad("segment along an edge repeated", cat("v", x.first.first, " v", x.first.second, " of ", what));
      else if (f < w[0] || b < w[1]) bad("segment along an edge reversed", cat("v", x.first.first, " v", x.first.second, " of ", what));
    }
    for (auto& x : ends)
      for (auto& y : ends)
        if (x.second == y.first) {
          bad("curves not joined", cat("at ", show(x.second), " of ", what));
          return;
        }
    ctx.outcome(cat(C.size() > 3 ? std::string(">3") : std::to_string(C.size()), " curves", onVertex ? ", vertices on the level" : "", flatEdge.size() ? ", flat faces" : ""));
    ctx.eval();
  }
  // all assignments of values, or a fixed list of functions on larger meshes
  void run(double limit) {
    size_t n = mesh.nVertices();
    std::vector<Vertex> V;
    for (Vertex v : mesh.vertices()) V.push_back(v);
    size_t base = std::pow(4., (double)n) <= limit ? 4 : std::pow(3., (double)n) <= limit ? 3 : std::pow(2., (double)n) <= limit ? 2 : 0;
    if (base) {
      std::vector<size_t> d(n, 0);
      while (true) {
        VertexData<double> u(mesh, 7.);
        for (size_t i = 0; i < n; i++) u[V[i]] = (double)d[i] - 1;
        level(u, 0);
        if (base < 4) level(u, base == 2 ? -.25 : .25);
        size_t k = 0;
        while (k < n && ++d[k] == base) d[k++] = 0;
        if (k == n) break;
      }
    }
    for (int k = 1; k < 60; k++) {
      VertexData<double> u(mesh, 0.);
      for (size_t i = 0; i < n; i++) u[V[i]] = k < 30 ? (double)((i * (k * 2 + 1) + i * i * k + k) % (size_t)(3 + k % 5)) : std::sin(i * .7 * k + i * i * .01 * k + k);
      for (double iso : {0., 1., .3, -.4}) level(u, iso);
    }
  }
};
static void go(Ctx& ctx, const std::string& id, SurfaceMesh& m, IntrinsicGeometryInterface& g, double limit) {
  for (Face f : m.faces()) {
    if (f.degree() != 3) return;
    std::set<size_t> s;
    for (Vertex v : f.adjacentVertices()) s.insert(v.getIndex());
    if (s.size() != 3) return;
  }
  if (!ctx.begin(id)) return;
  ctx.state(hashStr(id));
  Case c{ctx, id, m, g, {}};
  c.run(limit);
}
int main(int argc, char** argv) {
  Options o;
  o.property = "C29";
  o.technique = "explicit enumeration of all small integer functions on small meshes; the level set is defined face by face";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "a segment of the level set missing, repeated, invented, reversed or not joined, or a point off the level";
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    double limit = ctx.thorough ? 70000 : 7000;
    for (auto& s : suite::triShapes(ctx.thorough)) {
      suite::In in = suite::from(s);
      in.build();
      go(ctx, in.name, *in.mesh, *in.g, limit);
      if (suite::punch(in)) go(ctx, in.name, *in.mesh, *in.g, limit);
      auto a = geo::general(s.P, s.p);
      go(ctx, s.name + "-general", *a.mesh, *a.geom, 2000);
      // inconsistent orientation: every other face reversed
      gen::Polys P = s.P;
      for (size_t f = 0; f < P.size(); f += 2) std::swap(P[f][0], P[f][1]);
      auto b = geo::general(P, s.p);
      go(ctx, s.name + "-mixed", *b.mesh, *b.geom, 2000);
    }
    // k triangles on one edge
    for (size_t k = 3; k <= 4; k++) {
      gen::Polys P;
      geo::Pts p{{0, 0, 0}, {0, 0, 1}};
      for (size_t i = 0; i < k; i++) {
        P.push_back(i % 2 ? std::vector<size_t>{0, 1, 2 + i} : std::vector<size_t>{1, 0, 2 + i});
        p.push_back(Vector3{std::cos(2. * i), std::sin(2. * i), .3 * i});
      }
      auto a = geo::general(P, p);
      go(ctx, cat("book", k), *a.mesh, *a.geom, limit);
    }
    for (size_t nf = 1; nf <= (ctx.thorough ? 4u : 3u); nf++) {
      size_t i = 0;
      suite::glued(nf, {1., 1.3}, false, [&](suite::In& in) {
        if (nf > 2 && i++ % (nf == 3 ? 7 : 97)) return;
        in.build();
        go(ctx, in.name, *in.mesh, *in.g, 300);
      });
    }
  });
}
