// start surfaces and the case list
struct Start {
  std::function<void(Input&)> make;
  std::string name;
  int flips, rich;      // depths in the quick tier
  int flipsT, richT;    // thorough
};
static Start emb(const Shape& s, int f, int r, int ft, int rt) {
  return {[s](Input& in) {
            in.name = s.name;
            in.P = s.P;
            in.p = s.p;
          },
          s.name, f, r, ft, rt};
}
static std::vector<Start> starts() {
  std::vector<Start> v;
  Shape tet{"tet", gen::tetra(), {{0, 0, 0}, {2, .3, 0}, {.4, 1.9, 0}, {.3, .5, 1.7}}};
  v.push_back(emb(tet, 5, 2, 8, 3));
  Shape oct = geo::octahedron();
  oct.p = {{.1, 0, 1.2}, {0, .1, -.9}, {1.1, .1, 0}, {.1, 1.3, .1}, {-1, .2, .05}, {0, -1.1, -.1}};
  v.push_back(emb(oct, 3, 2, 5, 2));
  Shape fan{"fan3", gen::openFan(3), {{0, 0, 0}, {1, 0, 0}, {.8, .9, .3}, {-.3, 1, 0}, {-1.1, .2, .2}}};
  v.push_back(emb(fan, 4, 2, 6, 3));
  Shape cf{"closedFan5", gen::closedFan(5), {{0, 0, .6}, {1, .1, 0}, {.3, 1, 0}, {-.8, .6, .2}, {-.9, -.6, 0}, {.3, -1, .1}}};
  v.push_back(emb(cf, 4, 2, 6, 2));
  Shape flat = geo::planarGrid(2, 2, 1);
  for (auto& x : flat.p) {
    double a = x.x, b = x.y;
    x.x = a + .11 * b * b - .07 * a * b;
    x.y = b + .13 * a - .05 * a * a * b;
  }
  flat.name = "flat2x2";
  v.push_back(emb(flat, 3, 2, 4, 2));
  Shape bum = geo::planarGrid(2, 1, 2, true);
  v.push_back(emb(bum, 4, 2, 6, 3));
  Shape cyl = geo::cylinder(3, 1, 1);
  for (size_t i = 0; i < cyl.p.size(); i++) cyl.p[i] += Vector3{.03 * i, .05 * ((i * 3) % 4), .04 * ((i * 5) % 3)};
  v.push_back(emb(cyl, 4, 2, 6, 2));
  Shape tor = geo::torus(3, 3, 1);
  for (size_t i = 0; i < tor.p.size(); i++) tor.p[i] += Vector3{.03 * ((i * 7) % 5), .05 * ((i * 3) % 4), .04 * ((i * 5) % 3)};
  v.push_back(emb(tor, 2, 1, 3, 2));
  // a thin, strongly non-Delaunay surface
  Shape thin{"thin", gen::bipyramid(3), {{0, 0, .3}, {.1, .1, -.3}, {2, 0, 0}, {-1.3, 1.5, 0}, {-1, -1.7, .2}}};
  v.push_back(emb(thin, 4, 2, 6, 2));
  return v;
}
// all gluings of two triangles with two sets of edge lengths (Delta-complexes: self-edges, degree-one vertices)
static std::vector<Start> glued(size_t nf) {
  std::vector<Start> v;
  gen::gluings(std::vector<int>(nf, 3), [&](const gen::Polys& P, const gen::Twins& tw) {
    if (!gen::noSelfEdge(P)) return;
    for (int s = 0; s < 2; s++) {
      size_t k = v.size();
      v.push_back({[P, tw, s](Input& in) {
                     in.P = P;
                     in.tw = tw;
                     in.L.resize(64);
                     for (size_t i = 0; i < 64; i++) in.L[i] = s == 0 ? 1 + .07 * ((i * 5) % 7) : 1 + .11 * ((i * 3) % 8);
                     in.name = "glue";
                   },
                   cat("glue", nf, "-", k), nf == 1 ? 3 : 2, 1, 4, 2});
    }
  });
  return v;
}

static void highLevel(Ctx& ctx, Input& in, Kind kind, const std::string& cid);

static void body(Ctx& ctx, Kind only) {
  bool th = ctx.thorough;
  ctx.sample("tet: F0 F3 I2 S5@0.4 R4");
  for (int kk = 0; kk < 2; kk++) {
    Kind kind = (Kind)kk;
    if (!subdivMode && kind != only) continue;
    std::string kn = kind == SIGN ? "sign-" : "int-";
    auto all = starts();
    for (auto& s : all) {
      // split the work: one case per first move
      int df = th ? s.flipsT : s.flips, dr = th ? s.richT : s.rich;
      if (subdivMode) df = std::max(1, df - 1);
      if (ctx.beginf([&] { return kn + s.name + "-flips"; })) {
        Input in;
        s.make(in);
        in.build();
        explore(ctx, in, kind, df, false, kn + s.name);
      }
      size_t n;
      {
        Input in;
        s.make(in);
        in.build();
        Run r(in, kind);
        n = moves(r, true).size();
      }
      for (size_t i = 0; i < n; i++)
        if (ctx.beginf([&] { return cat(kn, s.name, "-m", i); })) {
          Input in;
          s.make(in);
          in.build();
          std::vector<Op> mv;
          {
            Run r(in, kind);
            mv = moves(r, true);
          }
          // explore from the state after the first move
          std::string cid = cat(kn, s.name, "-m", i);
          std::set<uint64_t> seen;
          std::vector<std::vector<Op>> level = {{mv[i]}};
          for (int d = 1; d <= dr; d++) {
            std::vector<std::vector<Op>> next;
            for (auto& w : level) {
              std::string id = kn + s.name + ":" + str(w);
              ctx.note(id);
              Run r(in, kind);
              Checker k{ctx, r, id};
              try {
                for (size_t j = 0; j < w.size(); j++) apply(k, w[j], j + 1 == w.size());
              } catch (std::exception& e) {
                k.bad("exception", cat("in ", str(w), ": ", e.what()));
                continue;
              }
              ctx.transition();
              uint64_t h = stateHash(r);
              if (!seen.insert(h).second) continue;
              ctx.state(mix(h, hashStr(s.name + kn)));
              auto nx = d < dr ? moves(r, true) : std::vector<Op>();
              if (subdivMode) k.subdivision();
              else k.all();
              ctx.trace();
              if (k.seen.size()) continue;
              for (auto& o : nx) {
                next.push_back(w);
                next.back().push_back(o);
              }
            }
            level.swap(next);
          }
        }
      if (!subdivMode && ctx.beginf([&] { return kn + s.name + "-high"; })) {
        Input in;
        s.make(in);
        in.build();
        highLevel(ctx, in, kind, kn + s.name);
      }
    }
    if (!subdivMode)
      for (size_t nf = 1; nf <= 2; nf++)
        for (auto& s : glued(nf))
          if (ctx.beginf([&] { return kn + s.name; })) {
            Input in;
            s.make(in);
            in.build();
            if (!in.M->valid) continue;
            explore(ctx, in, kind, th ? s.flipsT : s.flips, false, kn + s.name + "f");
            explore(ctx, in, kind, th ? s.richT : s.rich, true, kn + s.name + "r");
          }
  }
}

// flipToDelaunay, refinement and marked edges
static void highLevel(Ctx& ctx, Input& in, Kind kind, const std::string& cid) {
  // Delaunay from every flipped state gives the same triangulation (unique for generic lengths)
  std::vector<double> ref;
  auto lens = [](Run& r) {
    std::vector<double> v;
    for (Edge e : r.bm().edges()) v.push_back(r.T->edgeLengths[e]);
    std::sort(v.begin(), v.end());
    return v;
  };
  size_t nE;
  {
    Run r(in, kind);
    r.T->flipToDelaunay();
    ref = lens(r);
    nE = r.bm().nEdges();
  }
  for (size_t a = 0; a <= nE; a++)
    for (size_t b = 0; b < nE; b++) {
      Run r(in, kind);
      std::string id = cat(cid, ":F", a, " F", b, " delaunay");
      ctx.note(id);
      Checker k{ctx, r, id};
      try {
        if (a < nE) apply(k, {'F', (int)a}, false);
        apply(k, {'F', (int)b}, false);
        r.nFlipCb = 0;
        r.T->flipToDelaunay();
        ctx.transition();
        if (!r.T->isDelaunay()) k.bad("flipToDelaunay", "result is not Delaunay");
        auto l = lens(r);
        for (size_t i = 0; i < l.size(); i++)
          if (!closeRel(l[i], ref[i], 1e-6)) {
            k.bad("flipToDelaunay", "result depends on the start");
            break;
          }
        if (b % 4 == 0) k.all();
      } catch (std::exception& e) { k.bad("exception", e.what()); }
      ctx.trace();
    }
  // refinement
  bool needle = false;
  for (Vertex v : in.mesh->vertices())
    if (in.M->sum[v] < PI / 3 + .05) needle = true;
  for (double ang : {0., 15., 25.})
    for (double rad : {0., .6, .35})
      for (size_t maxIns : {(size_t)INVALID_IND, (size_t)1, (size_t)7}) {
        if (ang == 0 && rad == 0) continue;
        Run r(in, kind);
        std::string id = cat(cid, ":refine ", ang, ",", rad, ",", maxIns == INVALID_IND ? -1 : (int)maxIns);
        ctx.note(id);
        Checker k{ctx, r, id};
        double R = rad == 0 ? std::numeric_limits<double>::infinity() : rad * in.M->mean;
        size_t nv0 = in.mesh->nVertices();
        try {
          r.T->delaunayRefine(ang, R, maxIns);
          ctx.transition();
          if (r.nInsCb + r.nSplitCb < (int)r.bm().nVertices() - (int)nv0) k.bad("refine callbacks", "fewer insertions reported than vertices added");
          if (maxIns != INVALID_IND && (size_t)(r.nInsCb + r.nSplitCb) > maxIns) k.bad("maxInsertions", "exceeded");
          if (!r.T->isDelaunay()) k.bad("delaunayRefine", "result is not Delaunay");
          Metric B(r.bm(), r.T->edgeLengths);
          if (maxIns == INVALID_IND && B.valid) {
            for (Face f : r.bm().faces()) {
              Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
              double mn = 1e9;
              bool exempt = needle;
              for (int i = 0; i < 3; i++) {
                mn = std::min(mn, B.ang[h[i]]);
                double ws = B.sum[h[i].vertex()];
                if (ws < PI / 3 + .05) exempt = true;
                if (r.T->isFixed(h[i].edge()) && r.T->isFixed(h[(i + 2) % 3].edge())) exempt = true;
              }
              double circ = B.L[h[0].edge()] * B.L[h[1].edge()] * B.L[h[2].edge()] / (4 * B.area[f]);
              if (!exempt && ang > 0 && mn < ang * PI / 180 - 1e-5) k.bad("delaunayRefine", cat("left an angle of ", mn * 180 / PI, " degrees"));
              if (!exempt && circ > R + 1e-6) k.bad("delaunayRefine", cat("left a triangle with circumradius ", circ, " > ", R));
            }
          }
          ctx.outcome(r.bm().nVertices() > nv0 ? "refined" : "unrefined");
          k.all();
        } catch (std::exception& e) { k.bad("exception", e.what()); }
        ctx.trace();
      }
  // marked edges stay (split into marked pieces)
  for (size_t e0 = 0; e0 < in.mesh->nEdges(); e0++)
    for (int hi = 0; hi < 2; hi++) {
      Run r(in, kind);
      std::string id = cat(cid, ":marked ", e0, hi ? " refine" : " delaunay");
      ctx.note(id);
      Checker k{ctx, r, id};
      try {
        EdgeData<bool> mk(r.bm(), false);
        mk[r.bm().edge(e0)] = true;
        r.T->setMarkedEdges(mk);
        double len = r.T->edgeLengths[r.bm().edge(e0)];
        if (hi) r.T->delaunayRefine(20, .6 * in.M->mean, 12);
        else r.T->flipToDelaunay();
        double sum = 0;
        for (Edge e : r.bm().edges())
          if (r.T->markedEdges[e]) {
            sum += r.T->edgeLengths[e];
            if (!r.T->isFixed(e)) k.bad("isFixed", "false for a marked edge");
          }
        if (!closeRel(sum, len, 1e-6)) k.bad("marked edges", cat("cover length ", sum, " instead of ", len));
        if (!r.T->isDelaunay()) k.bad("marked edges", "result is not constrained Delaunay");
        k.all();
        r.T->clearMarkedEdges();
        r.T->flipToDelaunay();
        for (Edge e : r.bm().edges())
          if (delaunayExcess(Metric(r.bm(), r.T->edgeLengths), e) > 1e-4) k.bad("clearMarkedEdges", "edges still fixed");
      } catch (std::exception& e) { k.bad("exception", e.what()); }
      ctx.trace();
    }
}
