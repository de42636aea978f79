// C28: Poisson disk sampling, under every sequence of random choices from a finite alphabet (the random source of the real
// sampler is replaced by a controlled one).
#include "suite.h"
#include "geometrycentral/surface/poisson_disk_sampler.h"
#include "geometrycentral/utilities/utilities.h"
#include <array>
#include <map>
#include <random>
using namespace mc;
using namespace geometrycentral;
using namespace geometrycentral::surface;

// -------------------------------------------------------------- the controlled source: a script of choices, then a fixed pattern
namespace ctl {
static std::vector<size_t> script, arity; // choices made so far in this execution, and how many alternatives each had
static size_t pos, depth, tail;
static size_t angles = 6, dists = 2;
static size_t pick(size_t n) {
  if (n <= 1) return 0;
  if (pos < depth) {
    if (pos == script.size()) {
      script.push_back(0);
      arity.push_back(n);
    }
    return script[pos++] % n;
  }
  tail = tail * 6364136223846793005ull + 1442695040888963407ull;
  return (tail >> 33) % n;
}
static bool next() { // the next execution; false when all choices of this depth have been tried
  while (!script.empty()) {
    if (++script.back() < arity.back()) return true;
    script.pop_back();
    arity.pop_back();
  }
  return false;
}
static double real(double lo, double hi) {
  if (hi - lo > 6) return lo + (hi - lo) * (pick(angles) + .13) / angles; // an angle
  static const double at[] = {0, .9999, .35, .7, .1};
  return lo + (hi - lo) * at[pick(dists)];
}
static size_t index(size_t n) { return pick(n); }
} // namespace ctl
#define randomReal(a, b) ctl::real(a, b)
#define unitRand() ctl::real(0., 1.)
#define randomIndex(n) ctl::index(n)
#define randomInt(a, b) ((a) + (int)ctl::index((b) - (a) + 1))
#include "../src/surface/poisson_disk_sampler.cpp"
#undef randomReal
#undef unitRand
#undef randomIndex
#undef randomInt

struct Setup {
  PoissonDiskOptions o;
  std::string name;
};
struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  Case(Ctx& c, const std::string& i) : ctx(c), id(i) { ctx.state(hashStr(i)); }
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  std::string script() { return "choices " + str(ctl::script); }
  void judge(suite::In& in, const PoissonDiskOptions& o, const std::vector<SurfacePoint>& s, const std::vector<std::vector<size_t>>& comps, bool seeds) {
    ManifoldSurfaceMesh& m = *in.mesh;
    auto& P = in.vpg->vertexPositions;
    double r = o.minDist, eps = 1e-9 * (1 + r);
    std::vector<Vector3> x;
    std::vector<size_t> at;
    for (auto& p : s) {
      bool ok = true;
      try {
        p.validate();
      } catch (std::exception& e) { ok = false; }
      switch (p.type) {
      case SurfacePointType::Vertex: ok = ok && p.vertex.getMesh() == &m && !p.vertex.isDead(); break;
      case SurfacePointType::Edge: ok = ok && p.edge.getMesh() == &m && !p.edge.isDead() && p.tEdge > -1e-6 && p.tEdge < 1 + 1e-6; break;
      case SurfacePointType::Face:
        ok = ok && p.face.getMesh() == &m && !p.face.isDead() && !p.face.isBoundaryLoop() && p.faceCoords.x > -1e-6 && p.faceCoords.y > -1e-6 && p.faceCoords.z > -1e-6;
        break;
      }
      if (!ok) {
        bad("sample", cat("not a point of the surface, ", script()));
        return;
      }
      x.push_back(p.interpolate(P));
      Face f = p.type == SurfacePointType::Face ? p.face : p.type == SurfacePointType::Edge ? p.edge.halfedge().face() : Face();
      if (p.type == SurfacePointType::Vertex)
        for (Face g : p.vertex.adjacentFaces()) f = g;
      at.push_back(f.getIndex());
      ctx.eval();
    }
    for (size_t i = 0; i < x.size(); i++)
      for (size_t j = 0; j < i; j++) {
        double d = norm(x[i] - x[j]);
        if (d < r - eps) bad("distance", cat("samples ", j, " and ", i, " are ", d, " apart, closer than ", r, ", ", script()));
      }
    for (size_t k = 0; k < o.pointsToAvoid.size(); k++) {
      Vector3 a = o.pointsToAvoid[k].interpolate(P);
      double need = r;
      if (o.use3DAvoidance) need = std::max(need, o.minDistAvoidance);
      else if (in.planar)
        need = std::max(need, o.minDistAvoidance - r);
      for (size_t i = 0; i < x.size(); i++)
        if (norm(x[i] - a) < need - eps) bad(o.use3DAvoidance ? "avoidance" : "avoidance along the surface", cat("sample ", i, " is ", norm(x[i] - a), " from a point to avoid, closer than ", need, ", ", script()));
    }
    // each sample other than the first of its component lies within two radii of an earlier one of the component, and components
    // are not left out
    for (auto& c : comps) {
      std::vector<size_t> mine;
      for (size_t i = 0; i < x.size(); i++)
        if (std::binary_search(c.begin(), c.end(), at[i])) mine.push_back(i);
      if (mine.empty() && seeds) bad("components", cat("a component without samples, ", script()));
      for (size_t k = 1; k < mine.size(); k++) {
        double d = 1e300;
        for (size_t l = 0; l < k; l++) d = std::min(d, norm(x[mine[k]] - x[mine[l]]));
        if (d > 2 * r + eps) bad("distance to the others", cat("sample ", mine[k], " is ", d, " from the earlier ones, ", script()));
      }
    }
    ctx.trace();
    ctx.outcome(cat("samples: ", std::min<size_t>(s.size(), 20)));
  }
  void explore(suite::In& in, const PoissonDiskOptions& o, size_t depth, size_t limit, bool reuse) {
    std::vector<std::vector<size_t>> comps;
    {
      FaceData<char> done(*in.mesh, 0);
      for (Face f : in.mesh->faces()) {
        if (done[f]) continue;
        comps.emplace_back();
        std::vector<Face> q{f};
        done[f] = 1;
        while (!q.empty()) {
          Face g = q.back();
          q.pop_back();
          comps.back().push_back(g.getIndex());
          for (Halfedge h : g.adjacentHalfedges())
            if (h.twin().isInterior() && !done[h.twin().face()]) {
              done[h.twin().face()] = 1;
              q.push_back(h.twin().face());
            }
        }
        std::sort(comps.back().begin(), comps.back().end());
      }
    }
    ctl::script.clear();
    ctl::arity.clear();
    ctl::depth = depth;
    PoissonDiskSampler sampler(*in.mesh, *in.vpg);
    size_t runs = 0;
    bool seeds = comps.size() == 1 && o.pointsToAvoid.empty();
    do {
      ctl::pos = 0;
      ctl::tail = 12345 + runs;
      std::vector<SurfacePoint> s;
      if (reuse && runs % 2) s = sampler.sample(o);
      else {
        PoissonDiskSampler fresh(*in.mesh, *in.vpg);
        s = fresh.sample(o);
      }
      ctx.transition(ctl::pos);
      judge(in, o, s, comps, seeds);
      runs++;
      if (runs >= limit) {
        ctx.outcome("executions cut");
        break;
      }
    } while (ctl::next());
    // options do not linger: a sampler used with other options before
    {
      PoissonDiskOptions q;
      q.minDist = o.minDist * 1.4;
      q.kCandidates = 2;
      ctl::script.clear();
      ctl::arity.clear();
      ctl::depth = 0;
      auto s = sampler.sample(q);
      judge(in, q, s, comps, comps.size() == 1);
      auto t = sampler.sample(o);
      judge(in, o, t, comps, seeds);
    }
  }
};

// several copies of a shape, moved
static suite::In copies(const geo::Shape& s, const std::vector<Vector3>& by, const std::string& name) {
  suite::In in;
  in.name = name;
  for (auto& d : by) {
    size_t o = in.p.size();
    for (auto& x : s.p) in.p.push_back(x + d);
    for (auto f : s.P) {
      for (auto& v : f) v += o;
      in.P.push_back(f);
    }
  }
  return in;
}

int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C28";
  o.technique = "stateless exhaustive exploration of the sampler under a controlled random source: every sequence of the first random choices from a finite alphabet";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "all sequences of the first choices (direction, distance, which active sample) up to the depth, the rest by a fixed pattern; samples are points of the surface, pairwise at least the "
           "minimum distance apart in space, at least the avoidance radius from points to avoid, each within two radii of an earlier one of its component";
  o.assumptions = {"directions from 6 (8) values, distances from both ends (and the middle) of their interval", "avoidance along the surface is judged on planar meshes, to within one minimum distance"};
  return mc::run(argc, argv, o, [&](mc::Ctx& ctx) {
    bool T = ctx.thorough;
    ctl::angles = T ? 8 : 6;
    ctl::dists = T ? 3 : 2;
    auto go = [&](suite::In in) {
      std::string base = in.name;
      bool built = false;
      double L = 0, lim = 0;
      for (double rel : {.9, .45, .23})
        for (int avoid = 0; avoid < 7; avoid++)
          for (int k : {1, 3, 30}) {
            if (k == 30 && avoid) continue;
            std::string id = cat(base, "/r", rel, "/a", avoid, "/k", k);
            if (!ctx.begin(id)) continue;
            if (!built) {
              in.build();
              Vector3 lo = in.p[0], hi = lo;
              for (auto& x : in.p) {
                lo = componentwiseMin(lo, x);
                hi = componentwiseMax(hi, x);
              }
              L = norm(hi - lo);
              built = true;
            }
            PoissonDiskOptions q;
            q.minDist = rel * L / 2;
            q.kCandidates = k;
            if (avoid) {
              Face f = in.mesh->face(avoid % in.mesh->nFaces());
              q.pointsToAvoid.push_back(SurfacePoint(f, Vector3{.2, .3, .5}));
              if (avoid % 2) q.pointsToAvoid.push_back(SurfacePoint(in.mesh->face(0), Vector3{1. / 3, 1. / 3, 1. / 3}));
              q.minDistAvoidance = q.minDist * (avoid < 3 ? 2.5 : avoid < 5 ? 1.2 : .5);
              q.use3DAvoidance = !(avoid == 2 || avoid == 4 || avoid == 6);
            }
            Case c(ctx, id);
            c.explore(in, q, T ? 5 : 4, T ? 4000 : 300, true);
          }
    };
    using namespace geo;
    for (double scale : {1., 7., .06}) {
      auto sc = [&](Shape s) {
        for (auto& x : s.p) x *= scale;
        if (scale != 1) s.name += cat("*", scale);
        return s;
      };
      std::vector<Shape> shapes{tetrahedron(), cubeTri(), planarGrid(3, 3, 1), planarGrid(4, 2, 2, true), icosahedron(), cylinder(4, 2, 1), torus(4, 3, 2)};
      if (scale == 1)
        for (auto& s : suite::triShapes(T)) shapes.push_back(suite::jitter(s, .15));
      for (auto& s : shapes) go(suite::from(sc(s)));
      Shape g = sc(planarGrid(2, 2, 1)), t = sc(tetrahedron());
      go(copies(g, {{0, 0, 0}, {0, 0, .05 * scale}}, cat("sheets", scale)));
      go(copies(g, {{0, 0, 0}, {.3 * scale, .1 * scale, .4 * scale}, {0, 0, 3 * scale}}, cat("sheets3-", scale)));
      go(copies(t, {{0, 0, 0}, {5 * scale, 0, 0}, {.1 * scale, .2 * scale, .1 * scale}}, cat("tetrahedra", scale)));
    }
  });
}
