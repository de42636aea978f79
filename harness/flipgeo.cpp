// C14: geodesics by edge flips.  All short edge walks, loops and pairs of walks on all small surfaces; the straightened
// network is judged with angles, lengths and cohomology of its own.
#include "geo.h"
#include "geod.h"
#include "suite.h"
#include "geometrycentral/surface/flip_geodesics.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include <Eigen/Dense>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using namespace geod;
typedef std::vector<Halfedge> Walk;
typedef std::vector<Walk> Walks;

static std::string str(const Walk& w) {
  std::string s;
  for (auto& h : w) s += cat(s.empty() ? "" : ">", h.vertex().getIndex());
  return w.empty() ? "none" : cat(s, ">", w.back().twin().vertex().getIndex(), "(h", w[0].getIndex(), ")");
}
static std::string str(const Walks& w) {
  std::string s;
  for (auto& x : w) s += cat(s.empty() ? "" : " & ", str(x));
  return s;
}
static double dist3(Vector3 a, Vector3 b) { return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
// closed 1-forms that are not exact, as values on the halfedges
struct Forms {
  std::vector<std::vector<double>> w; // by halfedge index
  Forms() {}
  Forms(ManifoldSurfaceMesh& m) {
    std::map<size_t, int> ei, vi;
    for (Edge e : m.edges()) { int k = ei.size(); ei[e.getIndex()] = k; }
    for (Vertex v : m.vertices()) { int k = vi.size(); vi[v.getIndex()] = k; }
    int E = ei.size(), F = m.nFaces(), V = vi.size();
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(F + V, E);
    int r = 0;
    for (Face f : m.faces()) {
      for (Halfedge h : f.adjacentHalfedges()) A(r, ei[h.edge().getIndex()]) += h == h.edge().halfedge() ? 1 : -1;
      r++;
    }
    for (Edge e : m.edges()) {
      A(F + vi[e.halfedge().tipVertex().getIndex()], ei[e.getIndex()]) += 1;
      A(F + vi[e.halfedge().tailVertex().getIndex()], ei[e.getIndex()]) -= 1;
    }
    Eigen::FullPivLU<Eigen::MatrixXd> lu(A);
    lu.setThreshold(1e-9);
    if (lu.dimensionOfKernel() == 0) return;
    Eigen::MatrixXd K = lu.kernel();
    for (int c = 0; c < K.cols(); c++) {
      std::vector<double> x(m.nHalfedgesCapacity(), 0.);
      for (Halfedge h : m.halfedges()) x[h.getIndex()] = K(ei[h.edge().getIndex()], c) * (h == h.edge().halfedge() ? 1 : -1);
      w.push_back(x);
    }
  }
  void flipped(Edge e) {
    Halfedge h = e.halfedge();
    for (auto& x : w) {
      x[h.getIndex()] = -(x[h.next().getIndex()] + x[h.next().next().getIndex()]);
      x[h.twin().getIndex()] = -x[h.getIndex()];
    }
  }
  std::vector<double> along(const Walk& p) const {
    std::vector<double> r;
    for (auto& x : w) {
      double s = 0;
      for (auto& h : p) s += x[h.getIndex()];
      r.push_back(s);
    }
    return r;
  }
};
static bool closedWalk(const Walk& w) { return w.front().vertex() == w.back().twin().vertex(); }
struct Snap { // everything rewinding has to restore
  std::vector<double> len, ang, sum;
  std::vector<size_t> next, vert, face;
  std::vector<Vector2> vec;
  std::vector<char> orig;
  Snap() {}
  Snap(SignpostIntrinsicTriangulation& t) {
    ManifoldSurfaceMesh& m = *t.intrinsicMesh;
    for (Edge e : m.edges()) len.push_back(t.edgeLengths[e]), orig.push_back(t.edgeIsOriginal[e]);
    for (Halfedge h : m.halfedges()) {
      ang.push_back(h.isInterior() || !h.edge().isBoundary() ? t.signpostAngle[h] : 0);
      next.push_back(h.next().getIndex());
      vert.push_back(h.vertex().getIndex());
      vec.push_back(t.halfedgeVectorsInVertex[h]);
    }
    for (Face f : m.faces()) { // up to the choice of the first halfedge of the face
      Halfedge b = f.halfedge(), h = b;
      for (int i = 0; i < 3; i++, h = h.next())
        if (h.getIndex() < b.getIndex()) b = h;
      Vector2 r = t.halfedgeVectorsInFace[b];
      double n = norm(r);
      h = b;
      for (int i = 0; i < 3; i++, h = h.next()) {
        Vector2 x = t.halfedgeVectorsInFace[h];
        vec.push_back(Vector2{(x.x * r.x + x.y * r.y) / n, (x.y * r.x - x.x * r.y) / n});
      }
      if (std::abs(t.halfedgeVectorsInFace[f.halfedge()].y) > 1e-9 || t.halfedgeVectorsInFace[f.halfedge()].x < 0) vec.push_back({1e9, 0});
    }
    for (Vertex v : m.vertices()) sum.push_back(t.vertexAngleSums[v]);
  }
  std::string diff(const Snap& o) const {
    if (next != o.next || vert != o.vert) return "connectivity";
    if (len.size() != o.len.size()) return "number of edges";
    for (size_t i = 0; i < len.size(); i++)
      if (std::abs(len[i] - o.len[i]) > 1e-9) return cat("edge length ", len[i], " was ", o.len[i]);
    for (size_t i = 0; i < ang.size(); i++)
      if (std::abs(ang[i] - o.ang[i]) > 1e-9) return cat("signpost angle ", ang[i], " was ", o.ang[i]);
    for (size_t i = 0; i < vec.size(); i++)
      if (!(norm(vec[i] - o.vec[i]) < 1e-6)) return cat("halfedge vector ", vec[i], " was ", o.vec[i]);
    for (size_t i = 0; i < orig.size(); i++)
      if (orig[i] != o.orig[i]) return "original-edge flags";
    return "";
  }
};

struct Case {
  Ctx& ctx;
  suite::In& in;
  std::string id;
  std::set<std::string> seen;
  std::unique_ptr<FlipEdgeNetwork> net;
  Forms forms0, forms;
  Snap base;
  bool fullTrace = false;
  Case(Ctx& c, suite::In& i, std::string n) : ctx(c), in(i), id(n) {}
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  void make(const Walks& W = {}, VertexData<bool> marks = VertexData<bool>()) {
    net.reset(new FlipEdgeNetwork(*in.mesh, *in.g, W, marks));
    hook();
  }
  void hook() {
    forms0 = Forms(net->mesh);
    forms = forms0;
    net->supportRewinding = true;
    net->posGeom = in.vpg.get();
    base = Snap(*net->tri);
    net->tri->edgeFlipCallbackList.push_back([this](Edge e) { forms.flipped(e); });
  }
  struct Slot {
    const FlipEdgePath* p;
    SegmentID id;
  };
  // the strands leaving v in counterclockwise order
  struct Around {
    std::vector<std::pair<size_t, FlipPathSegment>> s; // halfedge index, segment
    std::vector<double> phi;
    int find(Halfedge h, FlipEdgePath* p, SegmentID id) const {
      for (size_t i = 0; i < s.size(); i++)
        if (s[i].first == h.getIndex() && s[i].second.path == p && s[i].second.id == id) return i;
      return -1;
    }
  };
  Around around(Vertex v, const Metric& M) {
    Around r;
    Halfedge first = v.halfedge(), h = first;
    do {
      auto& d = net->pathsAtEdge[h.edge()];
      std::vector<FlipPathSegment> x(d.begin(), d.end()); // left of e.halfedge() first
      if (h == h.edge().halfedge()) std::reverse(x.begin(), x.end());
      for (auto& y : x) {
        r.s.push_back({h.getIndex(), y});
        r.phi.push_back(M.phi[h]);
      }
      if (!h.isInterior()) break;
      h = h.next().next().twin();
    } while (h != first);
    return r;
  }
  std::unique_ptr<Metric> metric() {
    EdgeData<double> L(net->mesh);
    for (Edge e : net->mesh.edges()) L[e] = net->tri->edgeLengths[e];
    return std::unique_ptr<Metric>(new Metric(net->mesh, L));
  }
  // pairs of strands crossing each other transversally
  int crossings(const Metric& M, std::string* err = nullptr) {
    int n = 0;
    for (Vertex v : net->mesh.vertices()) {
      Around A = around(v, M);
      std::vector<std::pair<int, int>> ch;
      for (auto& pp : net->paths)
        for (auto& x : pp->pathHeInfo) {
          if (std::get<0>(x.second).vertex() != v || std::get<1>(x.second) == INVALID_IND) continue;
          SegmentID pid = std::get<1>(x.second);
          Halfedge ph = std::get<0>(pp->pathHeInfo[pid]);
          int a = A.find(ph.twin(), pp.get(), pid), b = A.find(std::get<0>(x.second), pp.get(), x.first);
          if (a < 0 || b < 0) {
            if (err) *err = "a path segment is missing from the list of its edge";
            continue;
          }
          ch.push_back({std::min(a, b), std::max(a, b)});
        }
      for (size_t i = 0; i < ch.size(); i++)
        for (size_t j = i + 1; j < ch.size(); j++) {
          auto a = ch[i], b = ch[j];
          if (a.first > b.first) std::swap(a, b);
          if (a.first < b.first && b.first < a.second && a.second < b.second) n++;
        }
    }
    return n;
  }
  struct Wedge {
    double l, r;
    bool lb, rb; // blocked
    Vertex v;
    bool spur;
    bool le, re; // blocked by an endpoint
  };
  static void note(const std::string& q) {
    static bool on = getenv("FG_Q");
    if (on) fprintf(stderr, "%s\n", q.c_str());
  }
  static bool contracted(FlipEdgePath& p) {
    if (!p.isClosed || p.size() > 2) return false;
    auto h = p.getHalfedgeList();
    if (h.size() == 2) return h[0] == h[1].twin();
    Halfedge a = h[0].isInterior() ? h[0] : h[0].twin(), b = a.twin();
    return a.next().edge() == a.next().next().edge() || (b.isInterior() && b.next().edge() == b.next().next().edge());
  }
  std::vector<Wedge> wedges(const Metric& M, const std::string& q) {
    std::vector<Wedge> res;
    std::map<size_t, Around> cache;
    for (auto& pp : net->paths) {
      if (contracted(*pp)) continue;
      for (auto& x : pp->pathHeInfo) {
        SegmentID pid = std::get<1>(x.second);
        if (pid == INVALID_IND) continue;
        Halfedge h = std::get<0>(x.second), ph = std::get<0>(pp->pathHeInfo[pid]);
        Vertex v = h.vertex();
        if (!cache.count(v.getIndex())) cache[v.getIndex()] = around(v, M);
        Around& A = cache[v.getIndex()];
        int a = A.find(ph.twin(), pp.get(), pid), b = A.find(h, pp.get(), x.first), n = A.s.size();
        if (a < 0 || b < 0) {
          bad("edge lists", q + ": a segment is missing from the list of its edge");
          continue;
        }
        Wedge w;
        w.v = v;
        w.spur = h == ph.twin();
        bool bd = v.isBoundary();
        double inf = std::numeric_limits<double>::infinity();
        // left: counterclockwise from b (out) to a (in)
        auto side = [&](int from, int to, double& ang, bool& bl, bool& be) {
          ang = A.phi[to] - A.phi[from];
          bl = be = false;
          bool wraps = to < from;
          for (int i = from + 1;; i++) {
            int k = ((i % n) + n) % n;
            if (k == to) break;
            bl = true;
            if (A.s[k].second.isEndpoint()) be = true;
          }
          if (wraps) {
            if (bd) ang = inf;
            else ang += M.sum[v];
          }
        };
        side(b, a, w.l, w.lb, w.le);
        side(a, b, w.r, w.rb, w.re);
        if (!net->straightenAroundMarkedVertices && net->isMarkedVertex[v]) w.lb = w.rb = true;
        res.push_back(w);
        // the library's angles agree
        if (!w.spur) {
          auto t = net->measureSideAngles(ph, h);
          for (int s = 0; s < 2; s++) {
            double got = s ? std::get<1>(t) : std::get<0>(t), want = s ? w.r : w.l;
            if (std::isinf(want) != std::isinf(got) || (!std::isinf(want) && std::abs(got - want) > 1e-6))
              bad("side angle", cat(q, ": ", s ? "right" : "left", " angle at vertex ", v.getIndex(), " is ", want, " not ", got));
          }
        }
      }
    }
    return res;
  }
  Walk path0() { return net->paths[0]->getHalfedgeList(); }
  std::vector<Walk> current() {
    std::vector<Walk> r;
    for (auto& p : net->paths) r.push_back(p->getHalfedgeList());
    return r;
  }
  // structure of the network, independent of how it got there
  bool structure(const Walks& W0, const std::string& q, const Metric& M, double tol = 1e-8) {
    try {
      net->validate();
    } catch (std::exception& e) {
      bad("validate", q + ": " + e.what());
      return false;
    }
    if (!M.valid) {
      bad("metric", q + ": the triangulation has degenerate triangles");
      return false;
    }
    if (std::abs(M.total - in.M->total) > tol * in.M->total) bad("isometry", q + ": the surface area changed");
    for (Vertex v : net->mesh.vertices())
      if (v.getIndex() < in.mesh->nVertices() && std::abs(M.sum[v] - in.M->sum[in.mesh->vertex(v.getIndex())]) > 10 * tol) bad("isometry", cat(q, ": the angle sum of vertex ", v.getIndex(), " changed"));
    auto C = current();
    if (C.size() != W0.size()) {
      bad("paths", cat(q, ": ", C.size(), " paths"));
      return false;
    }
    std::map<size_t, std::multiset<std::pair<const FlipEdgePath*, SegmentID>>> want;
    double len = 0;
    for (size_t i = 0; i < C.size(); i++) {
      bool closed = W0[i].front().vertex().getIndex() == W0[i].back().twin().vertex().getIndex();
      if (net->paths[i]->isClosed != closed) bad("closed", cat(q, ": closed flag is ", net->paths[i]->isClosed));
      auto& c = C[i];
      if (c.size() != net->paths[i]->size() || c.empty()) {
        bad("halfedge list", cat(q, ": ", c.size(), " halfedges listed, ", net->paths[i]->size(), " segments"));
        return false;
      }
      for (size_t k = 0; k + 1 < c.size(); k++)
        if (c[k].twin().vertex() != c[k + 1].vertex()) bad("connected", q + ": the listed path is not connected");
      if (closed) {
        if (c.back().twin().vertex() != c.front().vertex()) bad("connected", q + ": the loop is not closed");
      } else if (c.front().vertex().getIndex() != W0[i].front().vertex().getIndex() || c.back().twin().vertex().getIndex() != W0[i].back().twin().vertex().getIndex())
        bad("endpoints", q + ": the path does not join its endpoints");
      for (auto& x : net->paths[i]->pathHeInfo) want[std::get<0>(x.second).edge().getIndex()].insert({net->paths[i].get(), x.first});
      for (auto& h : c) len += M.L[h.edge()];
    }
    for (Edge e : net->mesh.edges()) {
      std::multiset<std::pair<const FlipEdgePath*, SegmentID>> got;
      for (auto& s : net->pathsAtEdge[e]) got.insert({s.path, s.id});
      if (got != want[e.getIndex()]) {
        bad("edge lists", q + ": the list of segments of an edge is wrong");
        return false;
      }
      if (net->edgeInPath(e) != !got.empty() || net->halfedgeInPath(e.halfedge()) != !got.empty()) bad("edge lists", q + ": edgeInPath is wrong");
    }
    if (std::abs(len - net->length()) > 1e-9 * (1 + len)) bad("length", cat(q, ": length() is ", net->length(), " not ", len));
    return true;
  }
  // the result is a geodesic wherever nothing is in the way
  bool geodesic(const std::vector<Wedge>& ws, const std::string& q, double tol = 2e-5) {
    bool all = true;
    double mn = std::numeric_limits<double>::infinity(), mi = mn;
    for (auto& w : ws) {
      if (w.spur) {
        ctx.outcome("spur");
        bool lb = w.l < 1 ? w.lb : true, rb = w.r < 1 ? w.rb : true;
        if (!lb || !rb) bad("spur", q + ": the path runs out and back along an edge");
        all = false;
        continue;
      }
      mn = std::min({mn, w.l, w.r});
      bool l = w.l < geo::PI - tol, r = w.r < geo::PI - tol;
      if ((l && !w.lb) || (r && !w.rb))
        bad(std::min(w.l, w.r) == (l && !w.lb ? w.l : w.r) ? "not straight" : "not straight on the wider side", cat(q, ": angles ", w.l, " and ", w.r, " at vertex ", w.v.getIndex(), w.lb ? " (left blocked)" : "", w.rb ? " (right blocked)" : ""));
      if (l || r) all = false;
    }
    return all;
  }
  // the network on the input surface
  void traced(const Walks& W0, const std::string& q, const Metric& M) {
    bool perfect = false;
    auto C = current();
    std::vector<std::vector<SurfacePoint>> P;
    try {
      P = net->getPathPolyline(perfect);
    } catch (std::exception& e) {
      bad("polyline", q + ": " + e.what());
      return;
    }
    ctx.eval();
    if (!perfect) bad("polyline imperfect", q + ": a trace did not reach its end");
    if (P.size() != C.size()) {
      bad("polyline", cat(q, ": ", P.size(), " polylines"));
      return;
    }
    for (size_t i = 0; i < P.size(); i++) {
      if (P[i].size() < 2) {
        bad("polyline", q + ": too short");
        continue;
      }
      auto at = [&](const SurfacePoint& p, Vertex v) {
        SurfacePoint s = snap(p, 1e-5);
        return s.type == SurfacePointType::Vertex && s.vertex.getIndex() == v.getIndex() && s.vertex.getMesh() == in.mesh.get();
      };
      if (!at(P[i].front(), C[i].front().vertex()) || !at(P[i].back(), C[i].back().twin().vertex())) bad("polyline ends", q + ": the polyline does not join the endpoints of the path");
      double len = 0;
      bool ok = true;
      for (size_t k = 0; k + 1 < P[i].size(); k++) {
        if (!validPoint(P[i][k], in.mesh.get(), 1e-6)) ok = false;
        double d = dist(*in.M, P[i][k], P[i][k + 1], 1e-6);
        if (!std::isfinite(d)) {
          bad("polyline", q + ": consecutive points do not share a face");
          ok = false;
          break;
        }
        len += d;
      }
      if (!ok) continue;
      double want = 0;
      for (auto& h : C[i]) want += M.L[h.edge()];
      // with several ways of joining two points in a face the shorter counts
      if (in.p.size() ? std::abs(len - want) > 1e-5 * (1 + want) : len > want + 1e-5 * (1 + want)) bad("polyline length", cat(q, ": the polyline has length ", len, " the path ", want));
      if (in.p.size()) {
        auto X = net->getPathPolyline3D();
        double l3 = 0;
        for (size_t k = 0; k + 1 < X[i].size(); k++) l3 += dist3(X[i][k], X[i][k + 1]);
        if (X[i].size() != P[i].size() || std::abs(l3 - want) > 1e-5 * (1 + want)) bad("polyline in space", cat(q, ": length ", l3, " the path ", want));
      }
      if (!fullTrace) continue;
      // each edge of the path is straight on the input surface and they meet at the measured angles
      double a1 = 0, first0 = 0;
      bool amb = false;
      for (size_t k = 0; k < C[i].size(); k++) {
        auto T = net->tri->traceIntrinsicHalfedgeAlongInput(C[i][k]);
        std::string why;
        auto R = analyze(*in.M, T, &why);
        std::vector<PathInfo> fit;
        for (auto& r : R)
          if (std::abs(r.len - M.L[C[i][k].edge()]) < 1e-5) fit.push_back(r);
        if (fit.empty()) {
          bad("edge trace", cat(q, ": edge of length ", M.L[C[i][k].edge()], " ", R.size() ? "has another length" : why));
          amb = true;
          break;
        }
        if (fit.size() > 1) {
          amb = true;
          break;
        }
        if (k == 0) first0 = fit[0].a0;
        else {
          Vertex v = C[i][k].vertex();
          double per = in.M->sum[in.mesh->vertex(v.getIndex())];
          double right = wrap(fit[0].a0 - a1, per), mine = wrap(M.phi[C[i][k]] - M.phi[C[i][k - 1].twin()], M.sum[v]);
          if (std::abs(right - mine) > 1e-4 && std::abs(std::abs(right - mine) - per) > 1e-4) bad("turning angle", cat(q, ": at vertex ", v.getIndex(), " ", right, " on the input surface, ", mine, " in the triangulation"));
        }
        a1 = fit[0].a1;
      }
      (void)first0;
    }
  }
  void one(const Walks& W, bool doTrace, bool viaRewind = true) {
    std::string q = str(W);
    note(q);
    ctx.state(hashStr(id + q));
    try {
      if (viaRewind) {
        forms = forms0;
        net->reinitializePath(W);
        forms = forms0;
        std::string d = Snap(*net->tri).diff(base);
        if (!d.empty()) bad("rewind", q + ": before this path, not restored: " + d);
      } else make(W);
    } catch (std::exception& e) {
      bad("construction", q + ": " + e.what());
      return;
    }
    auto M0 = metric();
    if (!structure(W, q + " at first", *M0)) return;
    std::string err;
    int x0 = crossings(*M0, &err);
    if (!err.empty()) bad("edge lists", q + ": " + err);
    double l0 = net->length();
    std::vector<std::vector<double>> f0;
    for (auto& w : current()) f0.push_back(forms.along(w));
    for (size_t i = 0; i < W.size(); i++) {
      auto C = current()[i];
      bool closed = net->paths[i]->isClosed;
      std::vector<size_t> a, b;
      for (auto& h : W[i]) a.push_back(h.getIndex());
      for (auto& h : C) b.push_back(h.getIndex());
      bool same = a == b;
      if (closed)
        for (size_t k = 0; k < b.size() && !same; k++) {
          std::rotate(b.begin(), b.begin() + 1, b.end());
          same = a == b;
        }
      if (!same) bad("initial path", q + ": not the halfedges that were given");
    }
    long f = net->nFlips, it0 = net->nShortenIters;
    if (const char* dbg = getenv("FG_STEP"))
      if (q == dbg)
        for (int it = 0; it < 40; it++) {
          printf("%d len %.6f:", it, net->length());
          for (auto& p : net->paths) {
            for (auto h : p->getHalfedgeList()) printf(" %zu>%zu(h%zu)", h.vertex().getIndex(), h.tipVertex().getIndex(), h.getIndex());
            for (auto& x : p->pathHeInfo)
              if (std::get<1>(x.second) != INVALID_IND) {
                auto t = net->measureSideAngles(std::get<0>(p->pathHeInfo[std::get<1>(x.second)]), std::get<0>(x.second));
                printf(" [v%zu %.4f %.4f]", std::get<0>(x.second).vertex().getIndex(), std::get<0>(t), std::get<1>(t));
              }
          }
          puts(""), fflush(stdout);
          net->iterativeShorten(1);
        }
    try {
      net->iterativeShorten();
    } catch (std::exception& e) {
      bad("exception", q + ": " + e.what());
      return;
    }
    ctx.transition(1 + net->nFlips - f);
    auto M1 = metric();
    if (!structure(W, q, *M1)) return;
    if (net->length() > l0 + 1e-9) bad("longer", cat(q, ": length ", l0, " becomes ", net->length()));
    auto C1 = current();
    for (size_t i = 0; i < C1.size(); i++) {
      auto g = forms.along(C1[i]);
      for (size_t k = 0; k < g.size(); k++)
        if (std::abs(g[k] - f0[i][k]) > 1e-7) bad("homotopy class", cat(q, ": the path moved to another class (", g[k], " was ", f0[i][k], ")"));
    }
    err.clear();
    int x1 = crossings(*M1, &err);
    if (!err.empty()) bad("edge lists", q + ": " + err);
    if (x1 > x0) bad("crossings", cat(q, ": ", x0, " crossings became ", x1));
    auto ws = wedges(*M1, q);
    bool all = geodesic(ws, q);
    ctx.outcome(all ? "geodesic" : "blocked");
    bool spur = false;
    for (auto& p : net->paths)
      if (contracted(*p)) {
        spur = true;
        ctx.outcome("contracted loop");
      }
    double mn = std::numeric_limits<double>::infinity();
    for (auto& w : ws) {
      if (w.spur) spur = true;
      else mn = std::min({mn, w.l, w.r});
    }
    if (!spur) {
      if (net->minAngle() != mn && std::abs(net->minAngle() - mn) > 1e-6) bad("minAngle", cat(q, ": ", net->minAngle(), " not ", mn));
    }
    (void)it0;
    if (in.planar && W.size() == 1 && in.name.find("hull") == 0 && !net->paths[0]->isClosed) { // a convex region of the plane
      double d = dist3(in.p[W[0].front().vertex().getIndex()], in.p[W[0].back().twin().vertex().getIndex()]);
      if (std::abs(d - net->length()) > 1e-4 * (1 + d)) bad("straight line", cat(q, ": length ", net->length(), " for points at distance ", d));
    }
    if (doTrace) traced(W, q, *M1);
    for (auto& p : net->paths)
      if (contracted(*p)) return;
    // nothing left to do
    double l1 = net->length();
    net->addAllWedgesToAngleQueue();
    net->iterativeShorten();
    if (std::abs(net->length() - l1) > 1e-9) {
      ctx.outcome("another round shortens");
      bad("unfinished", cat(q, ": measuring all angles again and shortening takes the length from ", l1, " to ", net->length()));
    }
  }

  // judge a shortened network; W gives endpoints
  void judge(const Walks& W, const std::string& q, bool trace, double tol = 2e-5) {
    auto M = metric();
    if (!structure(W, q, *M)) return;
    auto ws = wedges(*M, q);
    geodesic(ws, q, tol);
    if (trace) traced(W, q, *M);
  }
  bool simpleEdges() {
    for (Edge e : net->mesh.edges())
      if (net->pathsAtEdge[e].size() > 1) return false;
    return true;
  }
  // ---- vertices where the path is pinned
  void pinned(const Walk& w) {
    size_t n = w.size() - 1;
    for (size_t mask = 0; mask < (1u << n); mask++) {
      std::string q = cat(str(w), " pinned ", mask);
      VertexData<bool> mk(*in.mesh, false);
      std::set<size_t> pin;
      for (size_t k = 0; k < n; k++)
        if (mask >> k & 1) {
          mk[w[k + 1].vertex()] = true;
          pin.insert(w[k + 1].vertex().getIndex());
        }
      note(q);
      make({w}, mk);
      net->straightenAroundMarkedVertices = false;
      bool closed = closedWalk(w);
      std::set<size_t> all = pin;
      if (!closed) all.insert(w.front().vertex().getIndex()), all.insert(w.back().twin().vertex().getIndex());
      for (Vertex v : net->mesh.vertices())
        if (net->isMarkedVertex[v] != (bool)all.count(v.getIndex())) bad("marked vertices", q + ": flags are wrong");
      double l0 = net->length();
      net->iterativeShorten();
      ctx.transition();
      if (net->length() > l0 + 1e-9) bad("longer", q + ": longer");
      judge({w}, q, false);
      std::multiset<size_t> vis;
      for (auto& h : path0()) vis.insert(h.vertex().getIndex());
      if (!closed) vis.insert(w.back().twin().vertex().getIndex());
      for (size_t v : pin)
        if (!vis.count(v)) bad("pinned vertex", cat(q, ": the path no longer visits vertex ", v));
      // the isotopy angle excludes wedges blocked by an endpoint, and pinned vertices
      auto M = metric();
      double want = std::numeric_limits<double>::infinity();
      bool skip = contracted(*net->paths[0]);
      for (auto& x : wedges(*M, q)) {
        if (x.spur) skip = true;
        if (all.count(x.v.getIndex())) continue;
        bool left = x.l < x.r;
        if (std::abs(x.l - x.r) < 1e-9 && x.le != x.re) skip = true;
        double a = std::min(x.l, x.r);
        if (a <= geo::PI - 1e-5 && (left ? x.le : x.re)) continue;
        want = std::min(want, a);
      }
      double got = net->minAngleIsotopy();
      if (!skip && got != want && !(std::abs(got - want) < 1e-6)) bad("minAngleIsotopy", cat(q, ": ", got, " not ", want));
      ctx.eval();
    }
  }
  // ---- stopping early, and rewinding in the middle
  void limits(const Walk& w) {
    std::string q = str(w);
    note(q + " limits");
    make({w});
    std::vector<double> L{net->length()};
    while (!net->wedgeAngleQueue.empty() && L.size() < 200) {
      long it = net->nShortenIters;
      net->iterativeShorten(1);
      if (net->nShortenIters - it > 1) bad("maxIterations", q + ": more than one step");
      L.push_back(net->length());
      if (L.back() > L[L.size() - 2] + 1e-9 && net->paths[0]->size() > 2) bad("monotone", cat(q, ": a step takes the length from ", L[L.size() - 2], " to ", L.back()));
    }
    judge({w}, q + " step by step", false);
    std::string d;
    net->rewind();
    d = Snap(*net->tri).diff(base);
    if (!d.empty()) bad("rewind", q + ": not restored: " + d);
    if (!net->paths.empty() || !net->wedgeAngleQueue.empty()) bad("rewind", q + ": paths remain");
    for (Edge e : net->mesh.edges())
      if (net->edgeInPath(e)) bad("rewind", q + ": an edge still has a path");
    if (!net->intrinsicTriIsOriginal()) bad("rewind", q + ": intrinsicTriIsOriginal is false");
    ctx.transition(L.size());
    for (size_t k = 0; k < L.size(); k++) {
      net->reinitializePath({w});
      net->iterativeShorten(k);
      if (std::abs(net->length() - L[k]) > 1e-9) bad("maxIterations", cat(q, ": length ", net->length(), " after ", k, " iterations, ", L[k], " step by step"));
    }
    for (double r : {.3, .5, .8, .95, .999}) {
      net->reinitializePath({w});
      net->iterativeShorten(INVALID_IND, r);
      double want = L.back();
      for (double x : L)
        if (x < r * L[0]) {
          want = x;
          break;
        }
      if (std::abs(net->length() - want) > 1e-9) bad("length limit", cat(q, ": limit ", r, " of ", L[0], " ends at ", net->length(), " not ", want));
    }
    ctx.eval();
  }
  // ---- triangulations conforming to the path
  void conforming(const Walks& W, int refine) {
    std::string q = str(W) + (refine ? refine > 1 ? " refined" : " refined a little" : " Delaunay");
    note(q);
    make(W);
    net->iterativeShorten();
    for (auto& p : net->paths)
      if (contracted(*p)) return;
    if (!simpleEdges()) return;
    auto M0 = metric();
    if (!structure(W, q, *M0)) return;
    double l0 = net->length();
    auto C0 = current();
    auto X0 = in.p.size() ? net->getPathPolyline3D() : std::vector<std::vector<Vector3>>();
    forms.w.clear();
    struct Thin {};
    net->tri->faceInsertionCallbackList.push_back([&](Face, Vertex v) { // a circumcenter on an edge: nothing is promised
      for (Corner c : v.adjacentCorners())
        for (Halfedge h : {c.halfedge(), c.halfedge().next(), c.halfedge().next().next()})
          if (!(net->tri->cornerAngle(h.corner()) > 1e-4)) throw Thin();
    });
    try {
      if (refine) net->delaunayRefine(std::numeric_limits<double>::infinity(), refine > 1 ? 60 : 2);
      else net->makeDelaunay();
    } catch (Thin&) {
      ctx.outcome("degenerate circumcenter");
      return;
    } catch (std::exception& e) {
      bad("conforming", q + ": " + e.what());
      return;
    }
    ctx.transition();
    auto M = metric();
    if (!structure(W, q, *M, refine ? 1e-5 : 1e-8)) return;
    if (std::abs(net->length() - l0) > 1e-7 * (1 + l0)) bad("conforming length", cat(q, ": length ", l0, " becomes ", net->length()));
    auto C = current();
    if (!refine && C != C0) bad("conforming path", q + ": the path changed");
    size_t n = 0;
    for (Edge e : net->mesh.edges()) {
      if (e.isBoundary() || net->edgeInPath(e)) continue;
      double a = M->ang[e.halfedge().next().next()] + M->ang[e.halfedge().twin().next().next()];
      if (a > geo::PI + 1e-4 && !refine) bad("conforming Delaunay", cat(q, ": angles ", a, " across a free edge"));
      n++;
    }
    if (refine) { // every vertex in the interior of the path is an old one or straight
      geodesic(wedges(*M, q), q, 1e-4);
      if (X0.size()) {
        auto X = net->getPathPolyline3D();
        for (size_t i = 0; i < X.size(); i++) {
          for (auto& x : X[i]) { // on the old polyline
            double b = 1e300;
            for (size_t k = 0; k + 1 < X0[i].size(); k++) {
              Vector3 u = X0[i][k], d = X0[i][k + 1] - u;
              double dd = d.x * d.x + d.y * d.y + d.z * d.z;
              Vector3 ux = x - u;
              double t = dd > 0 ? std::min(1., std::max(0., (ux.x * d.x + ux.y * d.y + ux.z * d.z) / dd)) : 0;
              b = std::min(b, dist3(x, u + t * d));
            }
            if (b > 1e-4 * in.M->mean) bad("conforming curve", cat(q, ": the curve moved by ", b));
          }
        }
      }
      ctx.outcome(net->mesh.nVertices() > in.mesh->nVertices() ? "refined" : "nothing to refine");
    }
    ctx.eval(n);
  }
  // ---- factories
  void factories(bool T) {
    ManifoldSurfaceMesh& m = *in.mesh;
    size_t n = m.nVertices();
    std::vector<std::vector<double>> D(n, std::vector<double>(n, 1e300));
    for (size_t i = 0; i < n; i++) D[i][i] = 0;
    for (Edge e : m.edges()) {
      size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
      D[a][b] = D[b][a] = std::min(D[a][b], in.M->L[e]);
    }
    for (size_t k = 0; k < n; k++)
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) D[i][j] = std::min(D[i][j], D[i][k] + D[k][j]);
    auto recover = [&](const std::string& q) { // the walk the network represents
      Walk w;
      for (auto& h : path0()) w.push_back(m.halfedge(h.getIndex()));
      return w;
    };
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        std::string q = cat("Dijkstra ", i, " to ", j);
        net = FlipEdgeNetwork::constructFromDijkstraPath(m, *in.g, m.vertex(i), m.vertex(j));
        ctx.transition();
        if (i == j || D[i][j] > 1e200) {
          if (net) bad("Dijkstra", q + ": expected nothing");
          continue;
        }
        if (!net || net->paths.size() != 1) {
          bad("Dijkstra", q + ": no path");
          continue;
        }
        hook();
        if (std::abs(net->length() - D[i][j]) > 1e-9) bad("Dijkstra", cat(q, ": length ", net->length(), " not ", D[i][j]));
        Walk w = recover(q);
        if (w.front().vertex().getIndex() != i || w.back().twin().vertex().getIndex() != j) bad("Dijkstra", q + ": endpoints");
        net->iterativeShorten();
        judge({w}, q, true);
        if (net->length() > D[i][j] + 1e-9) bad("longer", q);
      }
    size_t step = std::max<size_t>(1, n * n * n / (T ? 1500 : 400));
    size_t cnt = 0;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        for (size_t k = 0; k < n; k++) {
          if (i == j || j == k || cnt++ % step) continue;
          for (int closed = 0; closed < 2; closed++)
            for (int mark = 0; mark < 2; mark++) {
              if (closed && i == k) continue;
              std::string q = cat("through ", i, " ", j, " ", k, closed ? " closed" : "", mark ? " marked" : "");
              net = FlipEdgeNetwork::constructFromPiecewiseDijkstraPath(m, *in.g, {m.vertex(i), m.vertex(j), m.vertex(k)}, closed, mark);
              ctx.transition();
              double want = D[i][j] + D[j][k] + (closed ? D[k][i] : 0);
              if (want > 1e200) continue;
              if (!net || net->paths.size() != 1) {
                bad("piecewise", q + ": no path");
                continue;
              }
              hook();
              if (std::abs(net->length() - want) > 1e-9) bad("piecewise", cat(q, ": length ", net->length(), " not ", want));
              std::set<size_t> mk, got;
              if (mark) mk = {i, j, k};
              if (!closed && i != k) mk.insert(i), mk.insert(k);
              for (Vertex v : net->mesh.vertices())
                if (net->isMarkedVertex[v]) got.insert(v.getIndex());
              if (got != mk) bad("piecewise marks", q + ": wrong vertices are marked");
              Walk w = recover(q);
              if (mark) net->straightenAroundMarkedVertices = false;
              net->iterativeShorten();
              judge({w}, q, false);
              std::set<size_t> vis;
              for (auto& h : path0()) vis.insert(h.vertex().getIndex()), vis.insert(h.tipVertex().getIndex());
              if (mark)
                for (size_t v : mk)
                  if (!vis.count(v)) bad("pinned vertex", q + ": the path left a pinned vertex");
            }
        }
  }
  void edgeSets() {
    ManifoldSurfaceMesh& m = *in.mesh;
    size_t nE = m.nEdges();
    for (size_t mark = 0; mark <= m.nVertices(); mark++)
      for (size_t set = 0; set < (1u << nE); set++) {
        std::string q = cat("edge set ", set, mark ? cat(" marking ", mark - 1) : "");
        EdgeData<bool> inP(m, false);
        for (size_t e = 0; e < nE; e++) inP[m.edge(e)] = set >> e & 1;
        VertexData<bool> mk(m, false);
        if (mark) mk[m.vertex(mark - 1)] = true;
        std::vector<int> deg(m.nVertices(), 0);
        for (Edge e : m.edges())
          if (inP[e]) deg[e.firstVertex().getIndex()]++, deg[e.secondVertex().getIndex()]++;
        try {
          net = FlipEdgeNetwork::constructFromEdgeSet(m, *in.g, inP, mk);
        } catch (std::exception& e) {
          bad("edge set", q + ": " + e.what());
          continue;
        }
        ctx.transition();
        if (!net) {
          bad("edge set", q + ": nothing");
          continue;
        }
        std::vector<int> cover(nE, 0);
        Walks W;
        for (auto& p : net->paths) {
          Walk w;
          for (auto& h : p->getHalfedgeList()) {
            w.push_back(m.halfedge(h.getIndex()));
            cover[h.edge().getIndex()]++;
          }
          W.push_back(w);
        }
        for (size_t e = 0; e < nE; e++)
          if (cover[e] != (int)(set >> e & 1)) {
            bad("edge set cover", cat(q, ": edge ", e, " covered ", cover[e], " times"));
            break;
          }
        bool crossed = false;
        for (auto& w : W) {
          size_t a = w.front().vertex().getIndex(), b = w.back().twin().vertex().getIndex(), thr = 0;
          auto end = [&](size_t v) { return deg[v] != 2 || (mark && v == mark - 1); };
          for (size_t k = a == b ? 0 : 1; k < w.size(); k++) thr += end(w[k].vertex().getIndex());
          if (thr > (a == b)) crossed = true; // a closed path may start at an endpoint
          if (a != b && (!end(a) || !end(b))) bad("edge set pieces", q + ": a path ends in the middle of a chain");
        }
        if (crossed) bad("edge set pieces", q + ": a path continues through an endpoint");
        if (mark && !net->isMarkedVertex[net->mesh.vertex(mark - 1)]) bad("edge set marks", cat(q, ": vertex ", mark - 1, " is not marked"));
        if (set % 5 == 0 && set) {
          hook();
          net->straightenAroundMarkedVertices = set % 2;
          double l0 = net->length();
          net->iterativeShorten();
          judge(W, q, false);
          if (net->length() > l0 + 1e-9) bad("longer", q);
        }
      }
  }
  // ---- Bezier curves in a convex region of the plane
  void bezier(const std::vector<size_t>& cp, size_t rounds) {
    ManifoldSurfaceMesh& m = *in.mesh;
    std::vector<Vertex> pts;
    std::vector<Vector2> P;
    std::string q = cat("bezier", rounds);
    for (size_t i : cp) {
      pts.push_back(m.vertex(i));
      P.push_back({in.p[i].x, in.p[i].y});
      q += cat(" ", i);
    }
    net = FlipEdgeNetwork::constructFromPiecewiseDijkstraPath(m, *in.g, pts, false, true);
    if (!net) return;
    std::set<size_t> vis;
    for (auto& h : path0())
      if (!vis.insert(h.vertex().getIndex()).second) return; // not simple
    if (vis.count(path0().back().tipVertex().getIndex())) return;
    { // no control point between an initial path and its chord: the path would be caught on it
      std::vector<Vector2> poly;
      size_t seg = 0;
      for (auto& h : path0()) {
        Vector3 x = in.p[h.vertex().getIndex()], y = in.p[h.tipVertex().getIndex()];
        poly.push_back({x.x, x.y});
        if (h.tipVertex().getIndex() != cp[seg + 1]) continue;
        poly.push_back({y.x, y.y});
        for (size_t i = 0; i < P.size(); i++) {
          if (i == seg || i == seg + 1) continue;
          double turn = 0;
          for (size_t k = 0; k < poly.size(); k++) {
            Vector2 a = poly[k] - P[i], b = poly[(k + 1) % poly.size()] - P[i];
            if (norm(a) < 1e-9 || norm(b) < 1e-9) return;
            double t = std::atan2(cross(a, b), dot(a, b));
            if (std::abs(t) > geo::PI - 1e-6) return;
            turn += t;
          }
          if (std::abs(turn) > 1) return;
        }
        poly.clear();
        seg++;
      }
    }
    hook();
    forms.w.clear();
    try {
      net->bezierSubdivide(rounds);
    } catch (std::exception& e) {
      bad("bezier", q + ": " + e.what());
      return;
    }
    ctx.transition();
    if (!net->straightenAroundMarkedVertices) bad("bezier", q + ": option not restored");
    std::function<std::vector<Vector2>(std::vector<Vector2>, size_t)> cast = [&](std::vector<Vector2> c, size_t r) -> std::vector<Vector2> {
      if (r == 0) return c;
      std::vector<Vector2> l{c.front()}, b{c.back()}, x = c;
      while (x.size() > 1) {
        for (size_t i = 0; i + 1 < x.size(); i++) x[i] = .5 * (x[i] + x[i + 1]);
        x.pop_back();
        l.push_back(x.front());
        b.insert(b.begin(), x.back());
      }
      auto A = cast(l, r - 1), B = cast(b, r - 1);
      A.insert(A.end(), B.begin() + 1, B.end());
      return A;
    };
    auto want = cast(P, rounds);
    std::vector<Vector2> got;
    auto at = [&](Vertex v) {
      Vector3 x = net->tri->vertexLocations[v].interpolate(in.vpg->vertexPositions);
      return Vector2{x.x, x.y};
    };
    auto C = path0();
    got.push_back(at(C[0].vertex()));
    for (auto& h : C)
      if (net->isMarkedVertex[h.tipVertex()]) got.push_back(at(h.tipVertex()));
    std::string s1, s2;
    for (auto& x : got) s1 += cat(x, " ");
    for (auto& x : want) s2 += cat(x, " ");
    bool same = got.size() == want.size();
    for (size_t i = 0; i < got.size() && same; i++)
      if (norm(got[i] - want[i]) > 2e-3) same = false;
    if (!same) bad("bezier points", cat(q, ": control points ", s1, " expected ", s2));
    double len = 0;
    for (size_t i = 0; i + 1 < want.size(); i++) len += norm(want[i + 1] - want[i]);
    if (std::abs(len - net->length()) > 5e-3 * len) bad("bezier length", cat(q, ": ", net->length(), " not ", len));
    try {
      net->validate();
    } catch (std::exception& e) {
      bad("validate", q + ": " + e.what());
    }
    ctx.eval();
    ctx.outcome("bezier");
  }
};

// all walks without immediate reversal
static void walks(Vertex s, size_t len, const std::function<void(const Walk&)>& f) {
  Walk w;
  std::function<void(Vertex)> rec = [&](Vertex v) {
    if (!w.empty()) f(w);
    if (w.size() == len) return;
    for (Halfedge h : v.outgoingHalfedges()) {
      if (!w.empty() && h == w.back().twin()) continue;
      w.push_back(h);
      rec(h.twin().vertex());
      w.pop_back();
    }
  };
  rec(s);
}
static bool okWalk(const Walk& w) { return !(closedWalk(w) && w.size() > 1 && w.front() == w.back().twin()); }

int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C14";
  o.technique = "exhaustive enumeration of edge walks, loops and networks; the real flips run to completion and each result is judged with own angles, orders and cohomology";
  o.level = "bounded exhaustive exploration of the real code";
  o.caseCpuLimit = 120;
  o.rule = "every walk of up to 3 (4 in the thorough tier) edges without immediate reversal from every vertex of every surface and gluing, every second (every) pair of walks of up to 2 edges, every "
           "Dijkstra path, every k-th piecewise path, every edge subset of the small surfaces; a state is one shortened network";
  o.assumptions = {"coordinates are jittered or in general position; a circumcenter that lands on an edge is not judged",
                   "a path counts as geodesic when no unblocked wedge is below pi by more than the library's own tolerance"};
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    auto shapes = suite::triShapes(T);
    auto hull = geo::planarGrid(3, 3, 1);
    hull.name = "hull" + hull.name;
    shapes.push_back(hull);
    for (auto& s : shapes) {
      suite::In probe = suite::from(s);
      size_t nv = s.p.size();
      for (size_t v = 0; v < nv; v++) {
        std::string id = cat(s.name, " from ", v);
        if (!ctx.begin(id)) continue;
        suite::In in = suite::from(s);
        in.build();
        Case c(ctx, in, id);
        c.make();
        size_t n = 0;
        walks(in.mesh->vertex(v), T ? 4 : 3, [&](const Walk& w) {
          if (!okWalk(w)) return;
          c.fullTrace = n % 7 == 0;
          c.one({w}, n % 3 == 0 || T);
          n++;
        });
      }
    }
    for (auto& s : shapes) { // other operations
      size_t nv = s.p.size();
      for (size_t v = 0; v < nv; v++) {
        if (!ctx.begin(cat(s.name, " operations from ", v))) continue;
        suite::In in = suite::from(s);
        in.build();
        Case c(ctx, in, cat(s.name, " operations from ", v));
        ctx.state(hashStr(c.id));
        size_t n = 0;
        walks(in.mesh->vertex(v), T ? 4 : 3, [&](const Walk& w) {
          if (!okWalk(w)) return;
          if (w.size() > 1 && (T || w.size() == 2 || n % 2 == 0)) c.pinned(w);
          if (T || w.size() < 3 || n % 2 == 1) c.limits(w);
          if (T || w.size() < 3 || n % 3 == 2) c.conforming({w}, 0);
          if (w.size() < 3 || n % (T ? 2 : 10) == 0) {
            c.conforming({w}, 1);
            c.conforming({w}, 2);
          }
          n++;
        });
      }
      if (ctx.begin(s.name + " factories")) {
        suite::In in = suite::from(s);
        in.build();
        Case c(ctx, in, s.name + " factories");
        c.factories(T);
      }
      for (size_t v = 0; v < nv; v++) { // two paths
        if (!ctx.begin(cat(s.name, " pairs from ", v))) continue;
        suite::In in = suite::from(s);
        in.build();
        Case c(ctx, in, cat(s.name, " pairs from ", v));
        c.make();
        Walks A, B;
        walks(in.mesh->vertex(v), 2, [&](const Walk& w) { A.push_back(w); });
        for (Vertex u : in.mesh->vertices()) walks(u, 2, [&](const Walk& w) { B.push_back(w); });
        size_t n = 0;
        for (auto& a : A)
          for (auto& b : B) {
            if (!okWalk(a) || !okWalk(b) || n++ % (T ? 1 : 2)) continue;
            c.one({a, b}, n % 11 == 0);
          }
      }
    }
    suite::In hin = suite::from(hull);
    hin.build();
    for (size_t v = 0; v < hull.p.size(); v++) {
      if (!ctx.begin(cat("bezier from ", v))) continue;
      Case c(ctx, hin, cat("bezier from ", v));
      size_t n = hull.p.size();
      auto turn = [&](size_t a, size_t b, size_t d) {
        Vector3 x = hull.p[b] - hull.p[a], y = hull.p[d] - hull.p[b];
        return x.x * y.y - x.y * y.x;
      };
      for (size_t a = 0; a < n; a++)
        for (size_t b = 0; b < n; b++) {
          if (a == v || b == v || a == b || std::abs(turn(v, a, b)) < 1e-9) continue;
          for (size_t r = 1; r <= (T ? 3 : 2); r++) c.bezier({v, a, b}, r);
          for (size_t d = 0; d < n; d++) {
            if (d == v || d == a || d == b) continue;
            double s = turn(v, a, b);
            if (turn(a, b, d) * s < 1e-9 || turn(b, d, v) * s < 1e-9 || turn(d, v, a) * s < 1e-9) continue; // convex position
            for (size_t r = 1; r <= (T ? 2 : 1); r++) c.bezier({v, a, b, d}, r);
          }
        }
    }
    for (auto& s : {geo::tetrahedron(), geo::planarGrid(1, 1, 1), geo::octahedron(), suite::fan(3, 2), suite::fan(4, 3.5), suite::cone(3, .5), suite::cone(5, 1), geo::planarGrid(2, 1, 1)}) {
      if (s.P.size() > 8 || !ctx.begin("edge sets " + s.name)) continue;
      suite::In in = suite::from(s);
      in.build();
      if (in.mesh->nEdges() > 12) continue;
      Case c(ctx, in, "edge sets " + s.name);
      c.edgeSets();
    }
    for (size_t nf = 1; nf <= (T ? 3 : 2); nf++)
      suite::glued(nf, nf < 3 ? std::vector<double>{1, 1.4, 2.1} : std::vector<double>{1, 1.6}, true, [&](suite::In& in) {
        if (!ctx.begin(in.name)) return;
        in.build();
        Case c(ctx, in, in.name);
        c.make();
        size_t n = 0;
        for (Vertex v : in.mesh->vertices())
          walks(v, nf == 1 ? 4 : 3, [&](const Walk& w) {
            if (!okWalk(w)) return;
            c.fullTrace = n % 5 == 0;
            c.one({w}, true);
            n++;
          });
      });
  });
}
