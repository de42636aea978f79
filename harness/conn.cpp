// C01 construction / C02 navigation: every small polygon list, every small gluing, plus degree families.
#include "nav.h"
#include "mc.h"
using namespace nav;
using namespace mc;
using gen::Poly;
using gen::Polys;
using gen::Twins;

static bool g_nav = false; // C02: all queries; C01: construction + structure only

static uint64_t hashPolys(const Polys& p) {
  uint64_t h = 7;
  for (auto& q : p) h = mix(h, hashVec(q));
  return h;
}

// structure only: elements, element order, next/twin/edge incidence, boundary loops
static std::string structure(SurfaceMesh& m, const HS& s, Handles& h) {
  std::string r = nav::bind(m, s, h);
  if (!r.empty()) return r;
  size_t nInt = 0;
  for (int c = 0; c < s.nH(); c++) nInt += s.interior(c);
  NAV_CHECK(m.nVertices() == (size_t)s.nV && m.nFaces() == (size_t)s.nF && m.nEdges() == (size_t)s.nE, "V/E/F ", m.nVertices(), " ", m.nEdges(), " ", m.nFaces(), " expected ", s.nV, " ", s.nE, " ", s.nF);
  NAV_CHECK(m.nHalfedges() == (size_t)s.nH() && m.nInteriorHalfedges() == nInt && m.nCorners() == nInt && m.nBoundaryLoops() == (size_t)s.nB, "halfedge / loop counts");
  std::vector<int> bh, be;
  r = nav::detail::index(h.H, m.halfedgeIndexSize(), bh, "halfedge");
  if (!r.empty()) return r;
  r = nav::detail::index(h.E, m.edgeIndexSize(), be, "edge");
  if (!r.empty()) return r;
  for (int c = 0; c < s.nH(); c++) {
    NAV_CHECK(h.H[c].next() == h.H[s.next[c]], "next of halfedge ", c);
    NAV_CHECK(h.H[c].vertex() == h.V[s.tail[c]], "vertex of halfedge ", c);
    NAV_CHECK(h.H[c].isInterior() == s.interior(c), "halfedge ", c);
    NAV_CHECK(s.interior(c) ? h.H[c].face() == h.F[s.face[c]] : h.H[c].face().asBoundaryLoop() == h.B[-1 - s.face[c]], "face of halfedge ", c);
    NAV_CHECK(h.H[c].edge() == h.E[s.edge[c]], "edge of halfedge ", c);
    if (s.manifold) NAV_CHECK(h.H[c].twin() == h.H[s.twin(c)], "twin of halfedge ", c);
    std::vector<int> got, want = s.edgeHe[s.edge[c]];
    Halfedge x = h.H[c];
    do {
      got.push_back(bh[x.getIndex()]);
      x = x.sibling();
    } while (x != h.H[c] && got.size() <= want.size());
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    NAV_CHECK(got == want, "halfedges around the edge of halfedge ", c);
  }
  for (int v = 0; v < s.nV; v++) NAV_CHECK(m.vertex(v).halfedge().vertex() == m.vertex(v), "vertex ", v);
  for (int e = 0; e < s.nE; e++) NAV_CHECK(h.E[e].halfedge().edge() == h.E[e], "edge ", e);
  for (int b = 0; b < s.nB; b++) NAV_CHECK(h.B[b].halfedge().face().asBoundaryLoop() == h.B[b], "loop ", b);
  NAV_CHECK(m.isCompressed(), "");
  m.validateConnectivity();
  return "";
}

static std::string verify(SurfaceMesh& m, const HS& s) {
  Handles h;
  std::string r = structure(m, s, h);
  if (r.empty() && g_nav) r = checkNav(m, s, h);
  return r;
}

static void onePolys(Ctx& ctx, const Polys& p, const std::string& tag) {
  ctx.note(tag + str(p));
  ctx.state(hashPolys(p));
  // general mesh: every listing with all vertices referenced
  bool deg = true;
  for (auto& q : p) deg = deg && q.size() >= 3;
  bool dense = gen::allReferenced(p);
  {
    std::unique_ptr<SurfaceMesh> m;
    bool threw = false;
    try {
      m.reset(new SurfaceMesh(p));
    } catch (const std::runtime_error&) {
      threw = true;
    }
    ctx.transition();
    if (threw != (!deg || !dense)) ctx.fail("general-accept:" + str(p), cat("SurfaceMesh(", str(p), ") ", threw ? "rejected" : "accepted", " the listing"));
    else if (!threw && gen::noSelfEdge(p)) {
      HS s = gen::fromPolys(p);
      std::string r = verify(*m, s);
      ctx.trace();
      if (!r.empty()) ctx.fail("general:" + str(p), cat("SurfaceMesh(", str(p), "): ", r));
    }
  }
  {
    HS s;
    std::string why = deg && dense ? gen::manifoldFromPolys(p, s) : std::string(deg ? "unreferenced vertex" : "degree<3");
    std::unique_ptr<ManifoldSurfaceMesh> m;
    bool threw = false;
    std::string what;
    try {
      m.reset(new ManifoldSurfaceMesh(p));
    } catch (const std::runtime_error& e) {
      threw = true;
      what = e.what();
    }
    ctx.transition();
    ctx.outcome(why.empty() ? cat("manifold B=", std::min(s.nB, 4)) : "rejected: " + why);
    if (threw != !why.empty()) ctx.fail("manifold-accept:" + str(p), cat("ManifoldSurfaceMesh(", str(p), ") ", threw ? "rejected: " + what : "accepted", "; reference says: ", why.empty() ? "manifold" : why));
    else if (!threw) {
      std::string r = verify(*m, s);
      ctx.trace();
      if (!r.empty()) ctx.fail("manifold:" + str(p), cat("ManifoldSurfaceMesh(", str(p), "): ", r));
    }
  }
}

static void oneTwins(Ctx& ctx, const Polys& p, const Twins& t) {
  ctx.note("twins " + str(p) + gen::str(t));
  ctx.state(mix(hashPolys(p), hashStr(gen::str(t))));
  std::vector<std::vector<std::tuple<size_t, size_t>>> tw;
  for (auto& r : t) {
    tw.emplace_back();
    for (auto& x : r) tw.back().emplace_back(x.first < 0 ? INVALID_IND : (size_t)x.first, x.first < 0 ? INVALID_IND : (size_t)x.second);
  }
  HS s;
  std::string why = gen::manifoldFromTwins(p, t, s);
  std::unique_ptr<ManifoldSurfaceMesh> m;
  bool threw = false;
  std::string what;
  try {
    m.reset(new ManifoldSurfaceMesh(p, tw));
  } catch (const std::runtime_error& e) {
    threw = true;
    what = e.what();
  }
  ctx.transition();
  ctx.outcome(why.empty() ? cat("gluing B=", std::min(s.nB, 4)) : "gluing rejected: " + why);
  if (threw != !why.empty()) ctx.fail("twins-accept:" + str(p) + gen::str(t), cat("gluing ", threw ? "rejected: " + what : "accepted", "; reference says: ", why.empty() ? "manifold" : why));
  else if (!threw) {
    std::string r = verify(*m, s);
    ctx.trace();
    if (!r.empty()) ctx.fail("twins:" + str(p) + gen::str(t), cat("gluing ", str(p), gen::str(t), ": ", r));
  }
}

// feed a long list of small inputs as blocks (a block is one case)
struct Blocks {
  Ctx& ctx;
  std::string name;
  size_t block, n = 0;
  bool active = false;
  Blocks(Ctx& c, std::string nm, size_t b = 200) : ctx(c), name(std::move(nm)), block(b) {}
  bool next() {
    if (n % block == 0) {
      size_t k = n / block;
      active = ctx.beginf([&] { return cat(name, "#", k); });
    }
    n++;
    return active;
  }
};

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]) == "--nav") g_nav = true;
  Options o;
  o.property = g_nav ? "C02" : "C01";
  o.technique = "bounded exhaustive enumeration of mesh listings against an explicit reference half-edge system";
  o.rule = "every multiset of oriented polygons on few vertices (two rotations of the listing), every orientable gluing of few polygons, "
           "degenerate/invalid polygons, and fan/book/bipyramid/grid families up to the stated sizes; the state is the listing";
  o.assumptions = {"polygon lists beyond the bounds are covered only by the families (vertex degree up to 45, edge degree up to 45)"};
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    ctx.sample("SurfaceMesh and ManifoldSurfaceMesh built from [[0,1,2],[0,2,3]] ... every list below the bound; all handles, orbits, sets and counts compared");
    auto enumerate = [&](const std::string& nm, const Polys& alphabet, size_t V, size_t kmin, size_t kmax) {
      for (size_t k = kmin; k <= kmax; k++) {
        Blocks b(ctx, cat(nm, "-k", k));
        gen::multisets(alphabet.size(), k, [&](const std::vector<size_t>& ix) {
          if (!b.next()) return;
          Polys p;
          for (size_t i : ix) p.push_back(alphabet[i]);
          if (gen::maxVert(p) + 1 < V) return; // covered by the smaller alphabet
          bool dense = gen::allReferenced(p);
          if (!dense && k > 2) return;         // rejection of sparse listings is exercised for short lists
          onePolys(ctx, p, nm);
          if (k > 1 && dense) {
            Polys q = gen::rotated(p, 1);
            std::reverse(q.begin(), q.end());
            onePolys(ctx, q, nm);
          }
        });
      }
    };
    auto cat2 = [](Polys a, const Polys& b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
    };
    enumerate("tri3", gen::orientedPolys(3, 3), 3, 1, 5);
    enumerate("tri4", gen::orientedPolys(4, 3), 4, 2, th ? 8 : 6);
    enumerate("tri5", gen::orientedPolys(5, 3), 5, 2, th ? 6 : 5);
    enumerate("tri6", gen::orientedPolys(6, 3), 6, 2, 4);
    enumerate("mix4", cat2(gen::orientedPolys(4, 3), gen::orientedPolys(4, 4)), 4, 1, th ? 5 : 4);
    enumerate("mix5", cat2(cat2(gen::orientedPolys(5, 3), gen::orientedPolys(5, 4)), gen::orientedPolys(5, 5)), 5, 1, th ? 3 : 2);
    // closed surfaces need more faces than the multisets reach: pairwise-compatible sets of 4..8 triangles on 5/6 vertices
    for (size_t V : {5, 6}) {
      Polys al = gen::orientedPolys(V, 3);
      Blocks b(ctx, cat("compat", V), 100);
      // depth-first: always extend the smallest directed edge that lacks its partner => closed oriented surfaces
      std::function<void(std::vector<size_t>&)> rec = [&](std::vector<size_t>& cur) {
        std::map<std::pair<size_t, size_t>, int> dir;
        for (size_t i : cur)
          for (int j = 0; j < 3; j++) dir[{al[i][j], al[i][(j + 1) % 3]}]++;
        std::pair<size_t, size_t> open{99, 99};
        for (auto& kv : dir) {
          if (kv.second > 1) return;
          if (!dir.count({kv.first.second, kv.first.first})) open = std::min(open, std::make_pair(kv.first.second, kv.first.first));
        }
        if (open.first == 99) {
          Polys p;
          for (size_t i : cur) p.push_back(al[i]);
          if (gen::allReferenced(p) && gen::maxVert(p) + 1 == V && b.next()) {
            onePolys(ctx, p, "closed");
            // and with one or two faces removed
            for (size_t k = 0; k < p.size(); k++) {
              Polys q = gen::withoutFace(p, k);
              onePolys(ctx, q, "closed-1");
              for (size_t l = k; l < q.size(); l++) onePolys(ctx, gen::withoutFace(q, l), "closed-2");
            }
          }
          return;
        }
        if (cur.size() >= (V == 5 ? 6u : (th ? 10u : 8u))) return;
        for (size_t i = 0; i < al.size(); i++) {
          bool has = false;
          for (int j = 0; j < 3; j++) has = has || (al[i][j] == open.first && al[i][(j + 1) % 3] == open.second);
          if (!has) continue;
          cur.push_back(i);
          rec(cur);
          cur.pop_back();
        }
      };
      std::vector<size_t> cur = {0};
      rec(cur);
    }
    // invalid / degenerate polygons
    {
      Blocks b(ctx, "degenerate", 100);
      for (size_t d = 1; d <= 5; d++) {
        Poly q(d, 0);
        while (true) {
          if (b.next()) {
            Polys p = {q};
            onePolys(ctx, p, "deg");
            onePolys(ctx, {q, {0, 1, 2}}, "deg");
            onePolys(ctx, {{0, 1, 2}, {2, 1, 3}, q}, "deg");
          }
          int i = (int)d - 1;
          size_t lim = d == 5 ? 3 : 4;
          while (i >= 0 && q[i] == lim - 1) q[i--] = 0;
          if (i < 0) break;
          q[i]++;
        }
      }
    }
    // gluings
    std::vector<std::vector<int>> ds = {{3}, {4}, {5}, {6}, {3, 3}, {3, 4}, {4, 4}, {3, 3, 3}};
    if (th) {
      ds.push_back({3, 3, 4});
      ds.push_back({3, 3, 3, 3});
      ds.push_back({5, 5});
    }
    for (auto& d : ds) {
      Blocks b(ctx, "glue" + str(d));
      gen::gluings(d, [&](const Polys& p, const Twins& t) {
        if (b.next()) oneTwins(ctx, p, t);
      });
    }
    // families
    auto fam = [&](const std::string& nm, const Polys& p) {
      if (!ctx.beginf([&] { return nm; })) return;
      onePolys(ctx, p, nm);
      onePolys(ctx, gen::rotated(p, 1), nm);
      Polys r = p;
      std::reverse(r.begin(), r.end());
      onePolys(ctx, r, nm);
      size_t nV = gen::maxVert(p) + 1;
      for (auto& q : r)
        for (auto& v : q) v = nV - 1 - v;
      onePolys(ctx, r, nm);
      // same-orientation violations
      if (p.size() > 2) {
        Polys f = p;
        std::reverse(f[1].begin(), f[1].end());
        onePolys(ctx, f, nm);
        f = p;
        f.push_back(p[0]);
        onePolys(ctx, f, nm);
      }
      // two copies, disjoint and sharing one vertex
      if (p.size() <= 30) {
        Polys u = gen::disjointUnion(p, p);
        onePolys(ctx, u, nm);
        size_t o = nV;
        for (auto& q : u)
          for (auto& v : q) v = v == o ? 0 : v > o ? v - 1 : v;
        onePolys(ctx, u, nm);
      }
    };
    for (size_t n = 1; n <= 45; n++) {
      fam(cat("openFan", n), gen::openFan(n));
      fam(cat("book", n), gen::book(n));
      if (n >= 3) {
        fam(cat("closedFan", n), gen::closedFan(n));
        fam(cat("bipyramid", n), gen::bipyramid(n));
      }
    }
    for (size_t w = 1; w <= 4; w++)
      for (size_t h = 1; h <= 4; h++)
        for (int st = 0; st < 4; st++)
          for (int wr = 0; wr < 4; wr++) {
            bool wx = wr & 1, wy = wr & 2;
            if ((wx && w < 3) || (wy && h < 3)) continue;
            fam(cat("grid", w, "x", h, "s", st, "w", wr), gen::grid(w, h, st, wx, wy));
          }
    fam("cube", gen::cube());
    fam("tetra", gen::tetra());
    {
      // annuli / multiple holes: remove non-adjacent faces of a grid torus and sphere
      Polys tor = gen::grid(4, 4, 1, true, true);
      for (size_t a = 0; a < tor.size(); a += 3)
        for (size_t b2 = a + 5; b2 < tor.size(); b2 += 4) {
          Polys q = tor;
          q.erase(q.begin() + b2);
          q.erase(q.begin() + a);
          fam(cat("torus-holes", a, "-", b2), q);
        }
    }
  });
}
