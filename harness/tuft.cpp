// C30: intrinsic mollification, tufted covers and intrinsic Delaunay flips (Euclidean and hyperbolic), and the tufted
// Laplacian, on all small triangle soups and on manifold surfaces, against an independent triangulation data structure.
#include "suite.h"
#include "ops.h"
#include "glue.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/tufted_laplacian.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;

static double dp(Vector3 a, Vector3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static Vector3 cr(Vector3 a, Vector3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(Vector3 a) { return std::sqrt(dp(a, a)); }

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  Case(Ctx& c, std::string i) : ctx(c), id(i) {}
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  // ---- mollification
  void mollify(SurfaceMesh& m, const EdgeData<double>& len0) {
    double mean = 0, n = 0;
    for (Edge e : m.edges()) mean += len0[e], n++;
    mean /= n;
    for (double f : {0., 1e-6, 1e-2, .5, 2.})
      for (int abs = 0; abs < 2; abs++) {
        EdgeData<double> l = len0;
        if (abs) mollifyIntrinsicAbsolute(m, l, f);
        else mollifyIntrinsic(m, l, f);
        ctx.transition();
        double delta = abs ? f : f * mean, need = 0;
        for (auto& t : tris(m))
          for (int i = 0; i < 3; i++) need = std::max(need, len0[t[i].edge()] - len0[t[(i + 1) % 3].edge()] - len0[t[(i + 2) % 3].edge()] + delta);
        for (Edge e : m.edges())
          if (std::abs(l[e] - len0[e] - need) > 1e-12 * (1 + mean)) bad("mollification", cat("with ", abs ? "absolute " : "relative ", f, ": length ", len0[e], " becomes ", l[e], " should be ", len0[e] + need));
      }
    ctx.outcome("mollified");
  }
  // ---- flips on an oriented surface
  void flips(SurfaceMesh& m, const EdgeData<double>& len0) {
    std::map<size_t, int> vi;
    Glue g0 = glueOf(m, len0, vi);
    // the reference flips the oriented double cover
    bool cover = false;
    for (Edge e : m.edges()) {
      if (!e.isManifold()) return;
      if (!e.isOriented()) cover = true;
    }
    auto doubled = [](const Glue& g, SurfaceMesh& m) {
      Glue d;
      d.nV = g.nV;
      size_t n = g.v.size();
      auto T = tris(m);
      for (size_t t = 0; t < n; t++) {
        d.v.push_back(g.v[t]);
        d.l.push_back(g.l[t]);
        d.tw.push_back(g.tw[t]);
      }
      for (size_t t = 0; t < n; t++) {
        d.v.push_back({g.v[t][0], g.v[t][2], g.v[t][1]});
        d.l.push_back({g.l[t][2], g.l[t][1], g.l[t][0]});
        d.tw.push_back({g.tw[t][2], g.tw[t][1], g.tw[t][0]});
      }
      for (size_t t = 0; t < n; t++)
        for (int i = 0; i < 3; i++) {
          auto o = g.tw[t][i];
          if (o.first < 0) continue;
          bool same = T[t][i].orientation() != T[o.first][o.second].orientation();
          Glue::Side front = o, back = {(int)n + o.first, 2 - o.second};
          d.tw[t][i] = same ? front : back;
          d.tw[n + t][2 - i] = same ? back : front;
        }
      return d;
    };
    if (cover) g0 = doubled(g0, m);
    for (int hyp = 0; hyp < 2; hyp++) {
      Glue ref = g0;
      std::unique_ptr<SurfaceMesh> c;
      ManifoldSurfaceMesh* mm = dynamic_cast<ManifoldSurfaceMesh*>(&m);
      if (mm) c = mm->copy();
      else c = m.copyToSurfaceMesh();
      EdgeData<double> l = len0.reinterpretTo(*c);
      size_t n = flipToDelaunay(*c, l, hyp ? FlipType::Hyperbolic : FlipType::Euclidean, 1e-8);
      ctx.transition(n + 1);
      std::string tag = hyp ? " (hyperbolic)" : "";
      std::map<size_t, int> vj;
      Glue got = glueOf(*c, l, vj);
      if (cover) got = doubled(got, *c);
      if (got.v.size() != g0.v.size() || got.nV != g0.nV) {
        bad("flips" + tag, "changed the number of elements");
        continue;
      }
      try {
        c->validateConnectivity();
      } catch (std::exception& e) { bad("flips" + tag, cat("broke the connectivity: ", e.what())); }
      if (!hyp) {
        double a = 0, b = 0;
        std::vector<double> A(g0.nV, 0.), B(g0.nV, 0.);
        auto angles = [](const Glue& g, std::vector<double>& x, double& ar) {
          for (size_t t = 0; t < g.v.size(); t++) {
            ar += g.area(t);
            for (int i = 0; i < 3; i++) {
              double p = g.l[t][i], q = g.l[t][(i + 2) % 3], o = g.l[t][(i + 1) % 3];
              x[g.v[t][i]] += std::acos(std::max(-1., std::min(1., (p * p + q * q - o * o) / (2 * p * q))));
            }
          }
        };
        angles(g0, A, a);
        angles(got, B, b);
        if (!(std::abs(a - b) <= 1e-7 * a)) bad("flips" + tag, cat("area ", b, " was ", a));
        if (got.skinny() > 1e-4)
          for (int i = 0; i < g0.nV; i++)
            if (!(std::abs(A[i] - B[i]) < 1e-6)) bad("flips" + tag, cat("angle sum ", B[i], " was ", A[i]));
      }
      for (size_t t = 0; t < got.v.size(); t++)
        for (int i = 0; i < 3; i++)
          if (got.tw[t][i].first >= 0 && got.tw[t][i].first != (int)t && !(got.score(t, i, hyp) > -1e-6)) bad("flips" + tag, cat("an edge is not Delaunay: ", got.score(t, i, hyp)));
      if (!ref.delaunay(hyp)) {
        ctx.outcome("reference does not terminate");
        continue;
      }
      if (!hyp) {
        if (ref.skinny() < 1e-5) continue;
        Mat X = ref.lap(), Y = got.lap();
        if (!((X - Y).cwiseAbs().maxCoeff() <= 1e-5 * X.cwiseAbs().maxCoeff())) bad("flips" + tag, cat("the Laplacian is not that of the intrinsic Delaunay triangulation, off by ", (X - Y).cwiseAbs().maxCoeff()));
        ctx.outcome(n ? "flipped" : "was Delaunay");
      } else {
        if (ref.slack() < 1e-6) {
          ctx.outcome("several hyperbolic Delaunay triangulations");
          continue;
        }
        auto x = ref.lengths(), y = got.lengths();
        for (size_t i = 0; i < x.size(); i++)
          if (x[i][0] != y[i][0] || x[i][1] != y[i][1] || !(std::abs(x[i][2] - y[i][2]) <= 1e-7 * x[i][2])) {
            bad("flips" + tag, cat("an edge of length ", y[i][2], " between ", y[i][0], " and ", y[i][1], " should have length ", x[i][2], " between ", x[i][0], " and ", x[i][1]));
            break;
          }
        ctx.outcome(n ? "flipped hyperbolic" : "was hyperbolic Delaunay");
      }
    }
  }
  // ---- tufted cover and Laplacian of an embedded mesh of any connectivity
  void tuft(SurfaceMesh& m, VertexPositionGeometry& geom) {
    auto T = tris(m);
    std::map<size_t, int> vi;
    int nV = 0;
    for (Vertex v : m.vertices()) vi[v.getIndex()] = nV++;
    auto& P = geom.vertexPositions;
    double mean = 0, ne = 0;
    EdgeData<double> L0(m);
    for (Edge e : m.edges()) {
      L0[e] = len(P[e.firstVertex()] - P[e.secondVertex()]);
      mean += L0[e];
      ne++;
    }
    mean /= ne;
    mollify(m, L0);
    // sides by edge
    std::map<size_t, std::vector<std::array<int, 2>>> by;
    for (size_t t = 0; t < T.size(); t++)
      for (int i = 0; i < 3; i++) by[T[t][i].edge().getIndex()].push_back({(int)t, i});
    // reference cover: triangle 2t is the front of face t, 2t+1 its back with corners 0, 2, 1
    Glue g;
    g.nV = nV;
    auto sideBack = [](int i) { return 2 - i; }; // side i of the front is side 2-i of the back
    for (auto& t : T) {
      int a = vi[t[0].vertex().getIndex()], b = vi[t[1].vertex().getIndex()], c = vi[t[2].vertex().getIndex()];
      g.v.push_back({a, b, c});
      g.v.push_back({a, c, b});
      for (int k = 0; k < 2; k++) {
        g.l.push_back({0, 0, 0});
        g.tw.push_back({});
      }
    }
    bool clear = true;
    for (auto& x : by) {
      Edge e = m.edge(x.first);
      Vector3 a = P[e.firstVertex()], b = P[e.secondVertex()], d = b - a;
      d = d / len(d);
      Vector3 u = std::abs(d.x) < .7 ? cr(d, Vector3{1, 0, 0}) : cr(d, Vector3{0, 1, 0});
      u = u / len(u);
      Vector3 w = cr(d, u);
      std::vector<std::pair<double, std::array<int, 2>>> o;
      for (auto& s : x.second) {
        Vector3 q = P[T[s[0]][(s[1] + 2) % 3].vertex()] - a;
        o.push_back({std::atan2(dp(q, w), dp(q, u)), s});
      }
      std::sort(o.begin(), o.end());
      for (size_t k = 0; k < o.size(); k++) {
        double nx = k + 1 < o.size() ? o[k + 1].first : o[0].first + 2 * geo::PI;
        if (o.size() > 1 && nx - o[k].first < 1e-6) clear = false;
        // the sheet of k whose normal points to larger angles faces the sheet of the next one which points to smaller ones
        auto sheet = [&](const std::array<int, 2>& s, bool up) {
          bool along = T[s[0]][s[1]].vertex() == e.firstVertex(); // then the normal d x q points to larger angles
          if (along == up) return Glue::Side{2 * s[0], s[1]};
          return Glue::Side{2 * s[0] + 1, sideBack(s[1])};
        };
        Glue::Side p = sheet(o[k].second, true), q = sheet(o[(k + 1) % o.size()].second, false);
        g.tw[p.first][p.second] = q;
        g.tw[q.first][q.second] = p;
        g.l[p.first][p.second] = g.l[q.first][q.second] = L0[e];
      }
    }
    // the cover itself
    for (int withPos = 0; withPos < 2; withPos++) {
      auto c = m.copyToSurfaceMesh();
      EdgeData<double> l = L0.reinterpretTo(*c);
      VertexPositionGeometry cg(*c, P.reinterpretTo(*c));
      buildIntrinsicTuftedCover(*c, l, withPos ? &cg : nullptr);
      ctx.transition();
      std::string tag = withPos ? "" : " (without positions)";
      try {
        c->validateConnectivity();
      } catch (std::exception& e) {
        bad("cover" + tag, cat("broken connectivity: ", e.what()));
        continue;
      }
      if (c->nFaces() != 2 * T.size() || c->nVertices() != (size_t)nV) {
        bad("cover" + tag, cat(c->nFaces(), " faces, ", c->nVertices(), " vertices"));
        continue;
      }
      if (c->hasBoundary() || !c->isEdgeManifold() || !c->isOriented()) bad("cover" + tag, "is not closed, edge manifold and oriented");
      size_t lens = 0;
      typedef std::array<int, 4> Label; // corners of the triangle in order, side
      auto label = [&](int a, int b, int c2) { return Label{a, b, c2, 0}; };
      std::multiset<std::pair<Label, Label>> got, want;
      auto add = [&](std::multiset<std::pair<Label, Label>>& s, Label x, Label y) { s.insert(x < y ? std::make_pair(x, y) : std::make_pair(y, x)); };
      std::map<size_t, int> vc;
      int k = 0;
      for (Vertex v : c->vertices()) vc[v.getIndex()] = k++;
      std::multiset<std::array<int, 3>> gf, wf;
      auto norm3 = [](std::array<int, 3> a) {
        while (a[0] > a[1] || a[0] > a[2]) std::rotate(a.begin(), a.begin() + 1, a.end());
        return a;
      };
      for (auto& t : tris(*c)) gf.insert(norm3({vc[t[0].vertex().getIndex()], vc[t[1].vertex().getIndex()], vc[t[2].vertex().getIndex()]}));
      for (auto& v : g.v) wf.insert(norm3(v));
      if (gf != wf) bad("cover" + tag, "the faces are not those of the mesh in both orientations");
      for (Edge e : c->edges()) {
        std::vector<Halfedge> hs;
        for (Halfedge h : e.adjacentHalfedges()) hs.push_back(h);
        if (hs.size() != 2) {
          bad("cover" + tag, cat("edge with ", hs.size(), " sides"));
          continue;
        }
        Label x[2];
        for (int i = 0; i < 2; i++) x[i] = label(vc[hs[i].vertex().getIndex()], vc[hs[i].next().vertex().getIndex()], vc[hs[i].next().next().vertex().getIndex()]);
        add(got, x[0], x[1]);
        double d = len(cg.vertexPositions[e.firstVertex()] - cg.vertexPositions[e.secondVertex()]);
        if (std::abs(l[e] - d) > 1e-12) lens++;
      }
      if (lens) bad("cover" + tag, "wrong edge lengths");
      if (withPos && clear) {
        for (size_t t = 0; t < g.v.size(); t++)
          for (int i = 0; i < 3; i++) {
            auto s = g.tw[t][i];
            if (std::make_pair((int)t, i) > s) continue;
            add(want, label(g.v[t][i], g.v[t][(i + 1) % 3], g.v[t][(i + 2) % 3]), label(g.v[s.first][s.second], g.v[s.first][(s.second + 1) % 3], g.v[s.first][(s.second + 2) % 3]));
          }
        if (got != want) bad("cover", "triangles around an edge are not glued in angular order");
        ctx.outcome("sorted cover");
      }
      flips(*c, l);
    }
    // the Laplacian
    for (double f : {0., 1e-3, .1}) {
      Glue h = g;
      double need = 0;
      if (f > 0)
        for (auto& l : h.l)
          for (int i = 0; i < 3; i++) need = std::max(need, l[i] - l[(i + 1) % 3] - l[(i + 2) % 3] + f * mean);
      for (auto& l : h.l)
        for (int i = 0; i < 3; i++) l[i] += need;
      Glue before = h;
      if (before.skinny() < 1e-5) {
        ctx.outcome("needles: not compared");
        continue;
      }
      auto r = buildTuftedLaplacian(m, geom, f);
      Mat L(std::get<0>(r)), M(std::get<1>(r));
      ctx.transition();
      if (L.rows() != nV || M.rows() != nV) {
        bad("tufted Laplacian", "size");
        continue;
      }
      double sc = L.cwiseAbs().maxCoeff();
      if (!((L - L.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * sc)) bad("tufted Laplacian", "is not symmetric");
      if (!((L * Eigen::VectorXd::Ones(nV)).cwiseAbs().maxCoeff() <= 1e-9 * sc)) bad("tufted Laplacian", "of constants is not zero");
      for (int i = 0; i < nV; i++)
        for (int j = 0; j < nV; j++) {
          if (i != j && L(i, j) > 1e-5) bad("tufted Laplacian", cat("has a positive entry ", L(i, j)));
          if (i != j && M(i, j) != 0) bad("tufted mass", "is not diagonal");
        }
      double ar = 0;
      for (size_t t = 0; t < before.v.size(); t++) ar += .5 * before.area(t);
      if (!(std::abs(M.trace() - ar) <= 1e-7 * ar)) bad("tufted mass", cat("has total ", M.trace(), " should be ", ar));
      if (!clear) {
        ctx.outcome("ambiguous order");
        continue;
      }
      if (!h.delaunay() || h.skinny() < 1e-5) continue;
      Mat X = .5 * h.lap(), Y = .5 * h.mass();
      if (!((X - L).cwiseAbs().maxCoeff() <= 1e-5 * sc)) bad("tufted Laplacian", cat("with factor ", f, " is off by ", (X - L).cwiseAbs().maxCoeff()));
      // (the mass matrix depends on the choice between cocircular triangulations)
      double tie = 1;
      for (size_t t = 0; t < h.v.size(); t++)
        for (int i = 0; i < 3; i++) tie = std::min(tie, std::abs(h.weight(t, i)));
      if (tie > 1e-5 && !((Y - M).cwiseAbs().maxCoeff() <= 1e-6 * Y.maxCoeff())) bad("tufted mass", cat("with factor ", f, " is off by ", (Y - M).cwiseAbs().maxCoeff()));
      ctx.outcome(tie > 1e-5 ? "tufted Laplacian and mass" : "tufted Laplacian");
    }
    EdgeData<double> again(m);
    for (Edge e : m.edges())
      if (std::abs(len(P[e.firstVertex()] - P[e.secondVertex()]) - L0[e]) > 0) bad("tufted Laplacian", "changed its input");
    if (m.nFaces() != T.size()) bad("tufted Laplacian", "changed the input mesh");
  }
};
int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C30";
  o.technique = "explicit enumeration of all small triangle soups and gluings, against an independent triangulation";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "every set of up to four triangles on five vertices in every pattern of orientations, in two placements; every gluing of two triangles with lengths from a set; embedded shapes";
  o.assumptions = {"triangulations with several equally good flips or gluings are judged by their properties only"};
  o.exhaustive = true;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    // all sets of triangles on five vertices
    std::vector<std::array<size_t, 3>> all;
    for (size_t a = 0; a < 5; a++)
      for (size_t b = a + 1; b < 5; b++)
        for (size_t c = b + 1; c < 5; c++) all.push_back({a, b, c});
    std::vector<geo::Pts> place = {{{0, 0, 0}, {2, .1, .3}, {.4, 1.7, -.2}, {-.6, .5, 1.9}, {.9, .8, -1.3}},
                                   {{0, 0, 0}, {4, 0, .1}, {1.1, .9, 0}, {2.2, -.8, .3}, {3.1, .6, -.4}},
                                   {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {.5, .5, .7}}};
    for (unsigned mask = 1; mask < 1024; mask++) {
      int n = __builtin_popcount(mask);
      if (n > (T ? 6 : 4)) continue;
      for (unsigned flip = 0; flip < (1u << n); flip++) {
        if (!T && n == 4 && flip % 5 != mask % 5) continue;
        if (T && n > 4 && flip % 7 != mask % 7) continue;
        gen::Polys P;
        std::map<size_t, size_t> ren;
        int k = 0;
        for (int i = 0; i < 10; i++)
          if (mask >> i & 1) {
            gen::Poly p;
            for (size_t v : all[i]) {
              if (!ren.count(v)) ren.insert({v, ren.size()});
              p.push_back(ren[v]);
            }
            if (flip >> k & 1) std::swap(p[1], p[2]);
            k++;
            P.push_back(p);
          }
        for (size_t pl = 0; pl < place.size(); pl++) {
          std::string id = cat("soup", mask, "-", flip, "-p", pl);
          if (!ctx.begin(id)) continue;
          ctx.state(hashStr(id));
          geo::Pts q(ren.size());
          for (auto& x : ren) q[x.second] = place[pl][x.first];
          auto e = geo::general(P, q);
          Case(ctx, id).tuft(*e.mesh, *e.geom);
          e.geom->requireEdgeLengths();
          Case(ctx, id + "f").flips(*e.mesh, e.geom->edgeLengths);
        }
      }
    }
    // shapes
    auto shapes = suite::triShapes(T);
    for (auto& s : shapes)
      for (int j = 0; j < 3; j++) {
        geo::Shape x = j ? suite::jitter(s, j == 1 ? .25 : .7) : s;
        std::string id = cat(x.name, "-j", j);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        auto e = geo::general(x.P, x.p);
        Case(ctx, id).tuft(*e.mesh, *e.geom);
        suite::In in = suite::from(x);
        in.build();
        EdgeData<double> l(*in.mesh);
        in.vpg->requireEdgeLengths();
        Case(ctx, id + "m").flips(*in.mesh, in.vpg->edgeLengths);
        if (suite::punch(in)) {
          in.vpg->requireEdgeLengths();
          Case(ctx, id + "h").flips(*in.mesh, in.vpg->edgeLengths);
          Case(ctx, id + "h").mollify(*in.mesh, in.vpg->edgeLengths);
        }
      }
    // books with many pages and a cone of cones
    for (size_t n = 3; n < 7; n++)
      for (int v = 0; v < 6; v++) {
        std::string id = cat("book", n, "-", v);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        geo::Pts q = {{0, 0, 0}, {.3 * v, .2, 2}};
        for (size_t i = 0; i < n; i++) {
          double a = (i * (v % 2 ? 2 : 1) % n) * 6.28 / n + .1 * i * v;
          q.push_back({std::cos(a) * (1 + .2 * i), std::sin(a) * (1 + .2 * i), .5 + .3 * (i * v % 4)});
        }
        gen::Polys P = gen::book(n);
        for (size_t i = 0; i < n; i++)
          if (v >> (i % 3) & 1) std::swap(P[i][0], P[i][1]);
        auto e = geo::general(P, q);
        Case(ctx, id).tuft(*e.mesh, *e.geom);
      }
    // gluings with lengths
    for (size_t nf = 1; nf <= (T ? 3u : 2u); nf++)
      suite::glued(nf, T && nf < 3 ? std::vector<double>{1, 1.3, 1.7, 2.2} : nf < 3 ? std::vector<double>{1, 1.4, 2.1} : std::vector<double>{1, 1.6}, true, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        ctx.state(hashStr(in.name));
        in.build();
        in.g->requireEdgeLengths();
        Case(ctx, in.name).flips(*in.mesh, in.g->edgeLengths);
        Case(ctx, in.name).mollify(*in.mesh, in.g->edgeLengths);
      });
  });
}
