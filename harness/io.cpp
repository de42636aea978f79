// C26: polygon soups (all cleanup operations on all small soups), reading and writing of meshes, per-element data and
// point clouds (every small mesh and every formatting variant of the text formats).
#include "suite.h"
#include "geometrycentral/surface/meshio.h"
#include "geometrycentral/surface/rich_surface_mesh_data.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_cloud_io.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include <cstring>
#include <unistd.h>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using gen::Polys;
typedef std::vector<std::vector<Vector2>> UVs;
typedef std::vector<size_t> Poly;

static std::string pstr(const Polys& P) {
  std::string s;
  for (auto& f : P) {
    s += "(";
    for (size_t i = 0; i < f.size(); i++) s += cat(i ? " " : "", f[i] == INVALID_IND ? std::string("-") : cat(f[i]));
    s += ")";
  }
  return s;
}
static bool same(const UVs& a, const UVs& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].size() != b[i].size()) return false;
    for (size_t j = 0; j < a[i].size(); j++)
      if (a[i][j].x != b[i][j].x || a[i][j].y != b[i][j].y) return false;
  }
  return true;
}
static bool same(const std::vector<Vector3>& a, const std::vector<Vector3>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    for (int k = 0; k < 3; k++)
      if (!(a[i][k] == b[i][k]) || std::signbit(a[i][k]) != std::signbit(b[i][k])) return false;
  return true;
}
static std::string num(double d, int style) { // styles of writing a number
  char b[64];
  snprintf(b, 64, style % 3 == 0 ? "%.17g" : style % 3 == 1 ? "%.17e" : "%+.17g", d);
  return b;
}
struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/gcio-XXXXXX";
    dir = mkdtemp(t);
  }
  ~Scratch() {
    for (auto& f : files) unlink(f.c_str());
    rmdir(dir.c_str());
  }
  std::vector<std::string> files;
  std::string file(const std::string& n) {
    std::string f = dir + "/" + n;
    if (std::find(files.begin(), files.end(), f) == files.end()) files.push_back(f);
    return f;
  }
};

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  Case(Ctx& c, std::string i) : ctx(c), id(i) {}
  void bad(const std::string& k, const std::string& msg) {
    if (!seen.insert(k).second) return;
    std::string m;
    for (char c : msg) m += c == '\n' ? std::string(" / ") : std::string(1, c);
    ctx.fail(k + "|" + id, k + ": " + m + " [" + id + "]");
  }
  // ---------------------------------------------------------------- cleanup of soups
  // the coordinates of a corner name its face and vertex, so they can be followed
  static SimplePolygonMesh soup(const Polys& P, size_t n, bool uv) {
    SimplePolygonMesh s;
    s.polygons = P;
    for (size_t i = 0; i < n; i++) s.vertexCoordinates.push_back({1. * (i % 3 ? i : 0), i == 3 ? 0. : 1. * (i / 2), i == 0 || i == 3 ? 7. : .5}); // 0 and 3 coincide
    if (uv)
      for (size_t f = 0; f < P.size(); f++) {
        s.paramCoordinates.emplace_back();
        for (size_t v : P[f]) s.paramCoordinates.back().push_back({1. * f, 1. * v});
      }
    return s;
  }
  enum Op { MERGE, UNUSED, DUPVERT, INVALID, DUPFACE, TRI, ORIENT, NOPS };
  static const char* opName(int o) {
    static const char* n[] = {"mergeIdenticalVertices", "stripUnusedVertices", "stripFacesWithDuplicateVertices", "stripInvalidFaces", "stripDuplicateFaces", "triangulate", "consistentlyOrientFaces"};
    return n[o];
  }
  struct Ref { // reference state, where faces remember their original corners
    struct C {
      size_t v;
      Vector2 uv;
    };
    std::vector<std::vector<C>> F;
    std::vector<Vector3> p;
    bool uv;
  };
  static Ref refOf(const SimplePolygonMesh& s) {
    Ref r;
    r.uv = s.hasParameterization();
    r.p = s.vertexCoordinates;
    for (size_t f = 0; f < s.polygons.size(); f++) {
      r.F.emplace_back();
      for (size_t i = 0; i < s.polygons[f].size(); i++) r.F.back().push_back({s.polygons[f][i], r.uv ? s.paramCoordinates[f][i] : Vector2{0, 0}});
    }
    return r;
  }
  static std::vector<std::array<double, 3>> canon(const std::vector<Ref::C>& f) { // as a cyclic sequence
    std::vector<std::array<double, 3>> a, best;
    for (auto& c : f) a.push_back({(double)c.v, c.uv.x, c.uv.y});
    best = a;
    for (size_t i = 0; i < a.size(); i++) {
      std::rotate(a.begin(), a.begin() + 1, a.end());
      if (a < best) best = a;
    }
    return best;
  }
  // compare one operation with its definition; false when its precondition does not hold
  bool apply(SimplePolygonMesh& s, int op, const std::string& what) {
    Ref r = refOf(s);
    size_t n = r.p.size();
    bool inBounds = true, deg = true;
    for (auto& f : r.F) {
      if (f.size() < 3) deg = false;
      for (auto& c : f)
        if (c.v >= n) inBounds = false;
    }
    if ((op == MERGE || op == UNUSED || op == ORIENT) && !inBounds) return false;
    if (op == TRI && !deg) {
      try {
        s.triangulate();
        bad(opName(op), "accepts a face of degree < 3: " + what);
      } catch (std::exception&) {}
      return false;
    }
    if (op == ORIENT && !deg) return false;
    if (op == ORIENT)
      for (auto& f : r.F) {
        std::set<size_t> d;
        for (auto& c : f) d.insert(c.v);
        if (d.size() != f.size()) return false;
      }
    ctx.transition();
    std::vector<size_t> map;
    switch (op) {
    case MERGE: {
      s.mergeIdenticalVertices();
      std::vector<Vector3> q;
      std::vector<size_t> to(n);
      for (size_t i = 0; i < n; i++) {
        size_t j = 0;
        while (j < q.size() && !(q[j].x == r.p[i].x && q[j].y == r.p[i].y && q[j].z == r.p[i].z)) j++;
        if (j == q.size()) q.push_back(r.p[i]);
        to[i] = j;
      }
      r.p = q;
      for (auto& f : r.F)
        for (auto& c : f) c.v = to[c.v];
      break;
    }
    case UNUSED: {
      map = s.stripUnusedVertices();
      std::vector<size_t> to(n, INVALID_IND);
      std::vector<bool> use(n, false);
      for (auto& f : r.F)
        for (auto& c : f) use[c.v] = true;
      std::vector<Vector3> q;
      for (size_t i = 0; i < n; i++)
        if (use[i]) {
          to[i] = q.size();
          q.push_back(r.p[i]);
        }
      if (map != to) bad(opName(op), "wrong map of indices: " + what);
      for (auto& f : r.F)
        for (auto& c : f) c.v = to[c.v];
      r.p = q;
      break;
    }
    case DUPVERT:
    case INVALID: {
      op == DUPVERT ? s.stripFacesWithDuplicateVertices() : s.stripInvalidFaces();
      std::vector<std::vector<Ref::C>> k;
      for (auto& f : r.F) {
        std::set<size_t> d;
        bool ok = true;
        for (auto& c : f) {
          d.insert(c.v);
          if (op == INVALID && c.v >= n) ok = false;
        }
        if (d.size() != f.size() || (op == INVALID && f.size() < 3)) ok = false;
        if (ok) k.push_back(f);
      }
      r.F = k;
      break;
    }
    case TRI: {
      s.triangulate();
      std::vector<std::vector<Ref::C>> k;
      for (auto& f : r.F)
        for (size_t i = 2; i < f.size(); i++) k.push_back({f[0], f[i - 1], f[i]});
      r.F = k;
      break;
    }
    case DUPFACE: s.stripDuplicateFaces(); break;
    case ORIENT: s.consistentlyOrientFaces(false); break;
    }
    if (r.uv != s.hasParameterization() && s.nFaces() > 0) {
      bad(opName(op), "loses or invents texture coordinates: " + what);
      return true;
    }
    if (s.hasParameterization()) {
      bool ok = s.paramCoordinates.size() == s.polygons.size();
      for (size_t i = 0; ok && i < s.polygons.size(); i++) ok = s.polygons[i].size() == s.paramCoordinates[i].size();
      if (!ok) {
        bad(opName(op), "texture coordinates no longer correspond to the polygons: " + what);
        s.paramCoordinates.clear();
        return true;
      }
    }
    Ref g = refOf(s);
    if (!same(g.p, r.p)) bad(opName(op), "wrong vertex positions: " + what);
    if (op == DUPFACE) {
      // one face of every vertex set survives, with its coordinates
      std::map<std::vector<size_t>, std::vector<std::vector<std::array<double, 3>>>> was;
      auto key = [](const std::vector<Ref::C>& f) {
        std::vector<size_t> k;
        for (auto& c : f) k.push_back(c.v);
        std::sort(k.begin(), k.end());
        return k;
      };
      auto seq = [](const std::vector<Ref::C>& f) {
        std::vector<std::array<double, 3>> a;
        for (auto& c : f) a.push_back({(double)c.v, c.uv.x, c.uv.y});
        return a;
      };
      for (auto& f : r.F) was[key(f)].push_back(seq(f));
      if (g.F.size() != was.size()) bad(opName(op), cat(g.F.size(), " faces should be ", was.size(), ": ", what));
      std::set<std::vector<size_t>> k;
      for (auto& f : g.F) {
        if (!k.insert(key(f)).second) bad(opName(op), "keeps a face twice: " + what);
        auto& w = was[key(f)];
        if (std::find(w.begin(), w.end(), seq(f)) == w.end()) bad(opName(op), "changes a face: " + what);
      }
    } else if (op == ORIENT) {
      if (g.F.size() != r.F.size()) {
        bad(opName(op), "changes the number of faces: " + what);
        return true;
      }
      std::vector<int> flipped(r.F.size(), 0);
      for (size_t i = 0; i < r.F.size(); i++) {
        auto rev = r.F[i];
        std::reverse(rev.begin(), rev.end());
        auto c = canon(g.F[i]);
        if (c == canon(r.F[i])) flipped[i] = 0;
        else if (c == canon(rev)) flipped[i] = 1;
        else bad(opName(op), "changes a face other than by reversing it: " + what);
      }
      // parity constraints between faces which share an edge with nobody else
      std::map<std::pair<size_t, size_t>, std::vector<std::pair<size_t, bool>>> E;
      for (size_t i = 0; i < r.F.size(); i++)
        for (size_t j = 0; j < r.F[i].size(); j++) {
          size_t a = r.F[i][j].v, b = r.F[i][(j + 1) % r.F[i].size()].v;
          E[{std::min(a, b), std::max(a, b)}].push_back({i, a < b});
        }
      size_t m = r.F.size();
      std::vector<std::vector<std::pair<size_t, bool>>> nb(m); // neighbor, same orientation
      for (auto& e : E)
        if (e.second.size() == 2) {
          auto a = e.second[0], b = e.second[1];
          nb[a.first].push_back({b.first, a.second != b.second});
          nb[b.first].push_back({a.first, a.second != b.second});
        }
      std::vector<int> col(m, -1), comp(m, -1);
      std::vector<bool> orientable;
      for (size_t i = 0; i < m; i++) {
        if (col[i] >= 0) continue;
        col[i] = 0;
        comp[i] = orientable.size();
        orientable.push_back(true);
        std::vector<size_t> st = {i};
        while (!st.empty()) {
          size_t f = st.back();
          st.pop_back();
          for (auto& x : nb[f]) {
            int want = col[f] ^ !x.second;
            if (col[x.first] < 0) {
              col[x.first] = want;
              comp[x.first] = comp[f];
              st.push_back(x.first);
            } else if (col[x.first] != want) orientable[comp[f]] = false;
          }
        }
      }
      for (size_t i = 0; i < m; i++)
        for (auto& x : nb[i])
          if (orientable[comp[i]] && ((flipped[i] == flipped[x.first]) != x.second)) bad(opName(op), cat("faces ", i, " and ", x.first, " of an orientable patch disagree: ", what));
      ctx.outcome("oriented");
    } else {
      bool ok = g.F.size() == r.F.size();
      for (size_t i = 0; ok && i < r.F.size(); i++) {
        ok = g.F[i].size() == r.F[i].size();
        for (size_t j = 0; ok && j < r.F[i].size(); j++) ok = g.F[i][j].v == r.F[i][j].v && g.F[i][j].uv.x == r.F[i][j].uv.x && g.F[i][j].uv.y == r.F[i][j].uv.y;
      }
      if (!ok) {
        Polys w;
        for (auto& f : r.F) {
          w.emplace_back();
          for (auto& c : f) w.back().push_back(c.v);
        }
        bad(opName(op), cat("gives ", pstr(s.polygons), " should be ", pstr(w), ": ", what));
      }
    }
    return true;
  }
  void cleanup(const Polys& P, size_t n, int depth) {
    for (int uv = 0; uv < 2; uv++) {
      std::function<void(const SimplePolygonMesh&, int, std::string)> rec = [&](const SimplePolygonMesh& s, int d, std::string what) {
        for (int o = 0; o < NOPS; o++) {
          SimplePolygonMesh t = s;
          if (!apply(t, o, what)) continue;
          if (d > 1) rec(t, d - 1, what + " after " + opName(o));
        }
      };
      rec(soup(P, n, uv), depth, cat(pstr(P), uv ? " with uv" : ""));
      // union
      SimplePolygonMesh a = soup(P, n, uv), b = soup({{0, 1, 2}}, 3, true);
      auto u = unionMeshes({a, b, a});
      Polys Q = P;
      Q.push_back({n, n + 1, n + 2});
      for (auto f : P) {
        for (size_t& v : f) v += n + 3;
        Q.push_back(f);
      }
      std::vector<Vector3> p = a.vertexCoordinates;
      p.insert(p.end(), b.vertexCoordinates.begin(), b.vertexCoordinates.end());
      p.insert(p.end(), a.vertexCoordinates.begin(), a.vertexCoordinates.end());
      if (u->polygons != Q || !same(u->vertexCoordinates, p)) bad("unionMeshes", pstr(P));
      if (uv) {
        UVs w = a.paramCoordinates;
        w.insert(w.end(), b.paramCoordinates.begin(), b.paramCoordinates.end());
        w.insert(w.end(), a.paramCoordinates.begin(), a.paramCoordinates.end());
        if (!P.empty() && !same(w, u->paramCoordinates)) bad("unionMeshes", "texture coordinates of " + pstr(P));
      } else if (u->hasParameterization()) bad("unionMeshes", "invents texture coordinates");
    }
    ctx.outcome("cleanup");
  }
  // ---------------------------------------------------------------- text formats
  struct Fmt { // one way of writing an OBJ file
    int index;   // 0 v, 1 v/t, 2 v//n, 3 v/t/n, 4 mixed: every second face has no texture coordinates
    int relative; // indices counted from the end
    int cont;     // lines continued with a backslash
    int eol, comments, inter, style, shared;
  };
  void obj(const Polys& P, const std::vector<Vector3>& p, const Fmt& f) {
    std::string nl = f.eol ? "\r\n" : "\n", o;
    size_t n = p.size(), nt = 0;
    if (f.comments) o += "# a comment" + nl + nl + "mtllib none.mtl" + nl + "o thing" + nl;
    auto vtx = [&](size_t i) {
      o += cat(f.style == 2 ? "v  " : "v ", num(p[i].x, f.style), f.style == 2 ? "   " : " ", num(p[i].y, f.style), " ", num(p[i].z, f.style), f.comments ? " 1.0" : "") + nl;
    };
    UVs uv;
    std::vector<std::vector<size_t>> ti(P.size());
    std::vector<Vector2> pool;
    bool hasT = f.index == 1 || f.index == 3 || f.index == 4;
    for (size_t k = 0; k < P.size(); k++) {
      uv.emplace_back();
      if (!hasT || (f.index == 4 && k % 2 == 1)) continue;
      for (size_t v : P[k]) {
        if (f.shared) {
          ti[k].push_back(v);
          uv.back().push_back({.125 * v, -.25 * v});
        } else {
          ti[k].push_back(nt++);
          pool.push_back({.125 * v + k, 1. / (1 + k)});
          uv.back().push_back(pool.back());
        }
      }
    }
    if (f.shared && hasT)
      for (size_t v = 0; v < n; v++) pool.push_back({.125 * v, -.25 * v});
    for (size_t i = 0; i < n; i++)
      if (!f.inter) vtx(i);
    for (auto& t : pool) o += cat("vt ", num(t.x, f.style), " ", num(t.y, f.style)) + nl;
    o += "vn 0 0 1" + nl;
    size_t written = f.inter ? 0 : n;
    for (size_t k = 0; k < P.size(); k++) {
      if (f.inter)
        for (size_t v : P[k])
          while (written <= v) vtx(written++);
      if (f.comments && k == 1) o += "g group" + nl + "s 1" + nl + "usemtl m" + nl;
      o += "f";
      for (size_t i = 0; i < P[k].size(); i++) {
        long a = f.relative ? (long)P[k][i] - (long)written : (long)P[k][i] + 1;
        o += f.cont && i == 2 ? " \\" + nl + "  " : f.style == 2 ? "  " : " ";
        o += cat(a);
        bool t = !ti[k].empty(), nn = f.index == 2 || f.index == 3;
        if (t) o += cat("/", f.relative ? (long)ti[k][i] - (long)pool.size() : (long)ti[k][i] + 1);
        if (nn) o += cat(t ? "/" : "//", f.relative ? -1 : 1);
      }
      o += nl;
    }
    while (written < n) vtx(written++);
    std::istringstream in(o);
    SimplePolygonMesh s(in, "obj");
    ctx.transition();
    std::string tag = cat(f.relative ? " relative indices" : "", f.cont ? " continued lines" : "", f.index == 4 ? " mixed" : hasT ? " textured" : "");
    if (s.polygons != P) bad("obj" + tag, cat("reads ", pstr(s.polygons), " should be ", pstr(P), " from:\n", o));
    if (!same(s.vertexCoordinates, p)) bad("obj" + tag, "reads wrong positions from:\n" + o);
    if (s.hasParameterization() != hasT) bad("obj" + tag, cat(hasT ? "loses" : "invents", " texture coordinates:\n", o));
    else if (hasT && !same(s.paramCoordinates, uv)) bad("obj" + tag, "reads wrong texture coordinates from:\n" + o);
    // write and read again
    if (s.polygons == P && f.index != 4) {
      std::ostringstream w;
      s.writeMesh(w, "obj");
      std::istringstream in2(w.str());
      SimplePolygonMesh t(in2, "obj");
      if (t.polygons != s.polygons || !same(t.vertexCoordinates, s.vertexCoordinates) || t.hasParameterization() != hasT || !same(t.paramCoordinates, s.paramCoordinates)) bad("obj round trip" + tag, "of:\n" + w.str());
      if (!hasT && w.str().find('/') != std::string::npos) bad("obj round trip" + tag, "refers to texture coordinates which are not there:\n" + w.str());
    }
    ctx.outcome("obj");
  }
  void off(const Polys& P, const std::vector<Vector3>& p, int style) {
    std::string o = style & 1 ? "# c\nOFF\n\n# more\n" : "OFF\n";
    o += cat(p.size(), " ", P.size(), style & 2 ? "\n" : " 0\n");
    for (auto& x : p) o += cat(num(x.x, style), " ", num(x.y, style), " ", num(x.z, style), style & 4 ? " 255 0 0\n" : "\n", style & 1 ? "\n# c\n" : "");
    for (auto& f : P) {
      o += cat(f.size());
      for (size_t v : f) o += cat(" ", v);
      o += style & 4 ? " 1 0 0\n" : "\n";
    }
    std::istringstream in(o);
    SimplePolygonMesh s(in, "off");
    ctx.transition();
    if (s.polygons != P || !same(s.vertexCoordinates, p) || s.hasParameterization()) bad("off", "reads " + pstr(s.polygons) + " from:\n" + o);
    ctx.outcome("off");
  }
  void stl(const Polys& P, const std::vector<Vector3>& p, int style, char header = 'x', const std::string& attr = std::string(2, '\0')) { // triangles; float coordinates
    bool binary = style & 1;
    int nrm = style / 2 % 3; // normal: along, none, against the order of the corners
    std::string o;
    auto put = [&](const void* d, size_t k) { o.append((const char*)d, k); };
    auto vec = [&](Vector3 v) {
      float f[3] = {(float)v.x, (float)v.y, (float)v.z};
      put(f, 12);
    };
    if (binary) {
      o.assign(80, header);
      uint32_t n = P.size();
      put(&n, 4);
    } else o = style & 8 ? "SOLID thing\n" : "solid\n";
    std::vector<std::array<Vector3, 3>> want;
    for (auto& f : P) {
      Vector3 a = p[f[0]], b = p[f[1]], c = p[f[2]], N = cross(b - a, c - a);
      N = N / norm(N);
      if (nrm == 1) N = Vector3{0, 0, 0};
      if (nrm == 2) N = N * -1.;
      if (nrm == 2) want.push_back({c, b, a});
      else want.push_back({a, b, c});
      if (binary) {
        vec(N);
        for (size_t v : f) vec(p[v]);
        o += attr;
      } else {
        o += cat("  facet normal ", num(N.x, 0), " ", num(N.y, 0), " ", num(N.z, 0), "\n outer loop\n");
        for (size_t v : f) o += cat("    vertex ", num(p[v].x, 1), " ", num(p[v].y, 1), " ", num(p[v].z, 1), "\n");
        o += "  endloop\n endfacet\n";
      }
    }
    if (!binary) o += "endsolid\n";
    std::istringstream in(o);
    SimplePolygonMesh s(in, "stl");
    ctx.transition();
    bool ok = s.polygons.size() == P.size() && s.vertexCoordinates.size() == 3 * P.size() && !s.hasParameterization();
    auto cyc = [](std::array<Vector3, 3> x) {
      auto less = [](Vector3 a, Vector3 b) { return std::make_tuple(a.x, a.y, a.z) < std::make_tuple(b.x, b.y, b.z); };
      while (less(x[1], x[0]) || less(x[2], x[0])) std::rotate(x.begin(), x.begin() + 1, x.end());
      return x;
    };
    for (size_t i = 0; ok && i < P.size(); i++) {
      std::array<Vector3, 3> g, w = cyc(want[i]);
      ok = s.polygons[i].size() == 3;
      for (int k = 0; ok && k < 3; k++) g[k] = s.vertexCoordinates[s.polygons[i][k]];
      if (ok) g = cyc(g);
      for (int k = 0; ok && k < 3; k++)
        for (int d = 0; d < 3; d++)
          if (g[k][d] != w[k][d]) ok = false;
    }
    std::string tag = cat(binary ? " binary" : " ascii", nrm == 2 ? " reversed" : nrm ? " without normals" : "");
    if (!ok) bad("stl" + tag, "reads " + pstr(s.polygons) + " for " + pstr(P));
    // as a mesh, coincident corners are one vertex
    if (nrm != 2) {
      std::istringstream in2(o);
      auto r = readSurfaceMesh(in2, "stl");
      SurfaceMesh& m = *std::get<0>(r);
      std::set<size_t> used;
      for (auto& f : P) used.insert(f.begin(), f.end());
      if (m.nVertices() != used.size() || m.nFaces() != P.size()) bad("stl" + tag, cat("as a mesh has ", m.nVertices(), " vertices should be ", used.size()));
    }
    ctx.outcome("stl");
  }
  // ---------------------------------------------------------------- meshes
  template <class M, class R> void sameMesh(const std::string& k, M& m, VertexData<Vector3>& p, CornerData<Vector2>* uv, R& r, CornerData<Vector2>* ruv) {
    // the mesh read has the elements in the order of iteration
    SurfaceMesh& q = *std::get<0>(r);
    VertexPositionGeometry& g = *std::get<1>(r);
    if (q.getFaceVertexList() != m.getFaceVertexList()) {
      bad(k, "different faces");
      return;
    }
    std::vector<Vector3> a, b;
    for (Vertex v : m.vertices()) a.push_back(p[v]);
    for (Vertex v : q.vertices()) b.push_back(g.vertexPositions[v]);
    if (!same(a, b)) bad(k, "different positions");
    if (uv && ruv) {
      UVs x, y;
      for (Face f : m.faces()) {
        x.emplace_back();
        for (Corner c : f.adjacentCorners()) x.back().push_back((*uv)[c]);
      }
      for (Face f : q.faces()) {
        y.emplace_back();
        for (Corner c : f.adjacentCorners()) y.back().push_back((*ruv)[c]);
      }
      if (!same(x, y)) bad(k, "different texture coordinates");
    }
    ctx.transition();
  }
  void meshes(SurfaceMesh& m, VertexPositionGeometry& g, Scratch& S) {
    ManifoldSurfaceMesh* mm = dynamic_cast<ManifoldSurfaceMesh*>(&m);
    VertexData<Vector3> p = g.vertexPositions;
    CornerData<Vector2> uv(m);
    for (Corner c : m.corners()) uv[c] = Vector2{c.getIndex() / 3., -1e-17 * c.getIndex()};
    std::string tag = cat(mm ? "" : " (general)", m.isCompressed() ? "" : " (with deleted elements)");
    {
      std::ostringstream o;
      writeSurfaceMesh(m, g, o, "obj");
      std::istringstream in(o.str());
      auto r = readSurfaceMesh(in, "obj");
      sameMesh("write and read" + tag, m, p, nullptr, r, nullptr);
      if (mm) {
        std::istringstream in2(o.str());
        auto r2 = readManifoldSurfaceMesh(in2, "obj");
        sameMesh("write and read manifold" + tag, m, p, nullptr, r2, nullptr);
      }
    }
    std::string f = S.file("mesh.obj");
    writeSurfaceMesh(m, g, uv, f);
    if (mm) {
      auto r = readParameterizedManifoldSurfaceMesh(f);
      sameMesh("write and read with coordinates" + tag, m, p, &uv, r, std::get<2>(r).get());
      auto r3 = loadMesh(f, "obj");
      sameMesh("loadMesh" + tag, m, p, nullptr, r3, nullptr);
    }
    auto r2 = readParameterizedSurfaceMesh(f, "obj");
    sameMesh("write and read with coordinates (as general)" + tag, m, p, &uv, r2, std::get<2>(r2).get());
    {
      std::ostringstream o;
      writeSurfaceMesh(m, g, uv, o, "obj");
      std::istringstream in(o.str());
      SimplePolygonMesh s(in, "obj");
      if (s.paramCoordinates.size() != m.nFaces()) bad("write with coordinates" + tag, "count");
    }
    // coordinates from vertex values
    VertexData<double> a(m), b(m);
    for (Vertex v : m.vertices()) {
      a[v] = v.getIndex() * .7;
      b[v] = 1. / (1 + v.getIndex());
    }
    CornerData<Vector2> p1 = packToParam(m, a), p2 = packToParam(m, a, b);
    for (Corner c : m.corners())
      if (p1[c].x != a[c.vertex()] || p1[c].y != 0 || p2[c].x != a[c.vertex()] || p2[c].y != b[c.vertex()]) bad("packToParam" + tag, "wrong value");
    // the older writer
    CornerData<Vector3> nr(m);
    for (Corner c : m.corners()) nr[c] = Vector3{1. * c.getIndex(), .5, -1. / (1 + c.getIndex())};
    std::streambuf* old = std::cout.rdbuf(nullptr);
    for (int kind = 0; kind < 4; kind++) {
      std::string f = S.file("w.obj");
      bool ok = kind == 0 ? WavefrontOBJ::write(f, g) : kind == 1 ? WavefrontOBJ::write(f, g, uv) : kind == 2 ? WavefrontOBJ::write(f, g, nr) : WavefrontOBJ::write(f, g, uv, nr);
      std::string k = cat("WavefrontOBJ kind ", kind, tag);
      if (!ok) {
        bad(k, "refused");
        continue;
      }
      SimplePolygonMesh s(f, "obj");
      Polys F = m.getFaceVertexList();
      std::vector<Vector3> x;
      for (Vertex v : m.vertices()) x.push_back(p[v]);
      if (s.polygons != F || !same(s.vertexCoordinates, x)) bad(k, "different faces or positions");
      UVs w;
      for (Face fc : m.faces()) {
        w.emplace_back();
        for (Corner c : fc.adjacentCorners()) w.back().push_back(uv[c]);
      }
      if (kind == 1 || kind == 3) {
        if (!same(s.paramCoordinates, w)) bad(k, "different texture coordinates");
      } else if (s.hasParameterization()) bad(k, "invents texture coordinates");
      if (kind >= 2) { // the normals of the corners, by a parser of its own
        std::ifstream in(f);
        std::string line;
        std::vector<Vector3> N;
        std::vector<std::vector<size_t>> fi;
        while (std::getline(in, line)) {
          std::istringstream l(line);
          std::string t;
          l >> t;
          if (t == "vn") {
            N.push_back({0, 0, 0});
            l >> N.back().x >> N.back().y >> N.back().z;
          }
          if (t == "f") {
            fi.emplace_back();
            while (l >> t) fi.back().push_back(strtoul(t.substr(t.rfind('/') + 1).c_str(), 0, 10));
          }
        }
        size_t i = 0;
        for (Face fc : m.faces()) {
          size_t j = 0;
          for (Corner c : fc.adjacentCorners()) {
            size_t q = i < fi.size() && j < fi[i].size() ? fi[i][j] : 0;
            if (q < 1 || q > N.size() || N[q - 1].x != nr[c].x || N[q - 1].z != nr[c].z) bad(k, "different normals");
            j++;
          }
          i++;
        }
      }
      ctx.transition();
    }
    std::cout.rdbuf(old);
    // permutations for the viewer: elements in order of first appearance in the faces
    auto perm = polyscopePermutations(m);
    std::vector<size_t> v, fc, e, h, c;
    std::set<size_t> es;
    for (Vertex x : m.vertices()) v.push_back(x.getIndex());
    for (Face x : m.faces()) {
      fc.push_back(x.getIndex());
      Halfedge he = x.halfedge();
      do {
        if (es.insert(he.edge().getIndex()).second) e.push_back(he.edge().getIndex());
        h.push_back(he.getIndex());
        c.push_back(he.corner().getIndex());
        he = he.next();
      } while (he != x.halfedge());
    }
    if (perm[0].first != v || perm[1].first != fc || perm[2].first != e || perm[3].first != h || perm[4].first != c) bad("polyscopePermutations" + tag, "wrong order");
    for (int k = 0; k < 5; k++)
      for (size_t x : perm[k].first)
        if (x >= perm[k].second) bad("polyscopePermutations" + tag, "index beyond the capacity");
    auto eo = polyscopeEdgeOrientations(m);
    auto vi = m.getVertexIndices();
    for (Edge x : m.edges())
      if ((bool)eo[x] != (vi[x.halfedge().tailVertex()] < vi[x.halfedge().tipVertex()])) bad("polyscopeEdgeOrientations" + tag, "wrong");
    ctx.outcome("meshes" + tag);
  }
  // every stored relation
  static std::string tables(SurfaceMesh& m) {
    std::string s = cat(m.nVertices(), " ", m.nHalfedges(), " ", m.nInteriorHalfedges(), " ", m.nEdges(), " ", m.nFaces(), " ", m.nBoundaryLoops(), " ", m.nCorners(), ";");
    for (Vertex v : m.vertices()) s += cat(v.getIndex(), ":", v.halfedge().getIndex(), " ");
    s += ";";
    for (Halfedge h : m.halfedges()) s += cat(h.getIndex(), ":", h.next().getIndex(), ",", h.sibling().getIndex(), ",", h.tailVertex().getIndex(), ",", h.edge().getIndex(), ",", h.isInterior() ? cat(h.face().getIndex()) : std::string("b"), ",", h.orientation(), " ");
    s += ";";
    for (Edge e : m.edges()) s += cat(e.getIndex(), ":", e.halfedge().getIndex(), " ");
    s += ";";
    for (Face f : m.faces()) s += cat(f.getIndex(), ":", f.halfedge().getIndex(), " ");
    s += ";";
    for (BoundaryLoop b : m.boundaryLoops()) s += cat(b.getIndex(), ":", b.halfedge().getIndex(), " ");
    return s;
  }
  template <class D> bool eq(const D& a, const D& b) { return a.size() == b.size() && (a.toVector() - b.toVector()).cwiseAbs().maxCoeff() == 0; }
  void rich(SurfaceMesh& m, VertexPositionGeometry& g, Scratch& S) {
    bool manifold = dynamic_cast<ManifoldSurfaceMesh*>(&m);
    std::string tag = cat(manifold ? "" : " (general)", m.isCompressed() ? "" : " (with deleted elements)");
    RichSurfaceMeshData d(m);
    d.addMeshConnectivity();
    d.addGeometry(g);
    d.addIntrinsicGeometry(g);
    VertexData<double> v(m);
    HalfedgeData<int> h(m);
    CornerData<float> c(m);
    EdgeData<double> e(m);
    FaceData<int> f(m);
    BoundaryLoopData<double> b(m);
    VertexData<unsigned char> red(m), green(m), blue(m);
    for (Vertex x : m.vertices()) {
      v[x] = std::sqrt(2. + x.getIndex());
      red[x] = 10 + x.getIndex();
      green[x] = 255;
      blue[x] = 3 * x.getIndex();
    }
    for (Halfedge x : m.halfedges()) h[x] = 100 + x.getIndex();
    for (Corner x : m.corners()) c[x] = .5f * x.getIndex();
    for (Edge x : m.edges()) e[x] = 1. / (3 + x.getIndex());
    for (Face x : m.faces()) f[x] = 7 * x.getIndex();
    for (BoundaryLoop x : m.boundaryLoops()) b[x] = .1 + x.getIndex();
    d.addVertexProperty("v", v);
    d.addHalfedgeProperty("h", h);
    d.addCornerProperty("c", c);
    d.addEdgeProperty("e", e);
    d.addFaceProperty("f", f);
    d.addBoundaryLoopProperty("b", b);
    d.addVertexProperty("red", red);
    d.addVertexProperty("green", green);
    d.addVertexProperty("blue", blue);
    std::ostringstream o;
    d.write(o);
    std::string file = S.file("rich.ply");
    d.write(file);
    std::string want = tables(m);
    g.requireEdgeLengths();
    for (int how = 0; how < 6; how++) {
      std::istringstream in(o.str());
      std::unique_ptr<SurfaceMesh> own;
      std::unique_ptr<RichSurfaceMeshData> r;
      if (how < 2) {
        if (!manifold) {
          bool threw = false;
          try {
            if (how == 0) RichSurfaceMeshData::readManifoldMeshAndData(in);
            else RichSurfaceMeshData::readManifoldMeshAndData(file);
          } catch (std::exception&) { threw = true; }
          if (!threw) bad("rich data", "a general mesh is read as a manifold one");
          continue;
        }
        if (how == 0) {
          auto x = RichSurfaceMeshData::readManifoldMeshAndData(in);
          own = std::move(std::get<0>(x));
          r = std::move(std::get<1>(x));
        } else {
          auto x = RichSurfaceMeshData::readManifoldMeshAndData(file);
          own = std::move(std::get<0>(x));
          r = std::move(std::get<1>(x));
        }
      } else if (how == 2) std::tie(own, r) = RichSurfaceMeshData::readMeshAndData(in);
      else if (how == 3) std::tie(own, r) = RichSurfaceMeshData::readMeshAndData(file);
      else if (how == 4) r.reset(new RichSurfaceMeshData(m, in));
      else r.reset(new RichSurfaceMeshData(m, file));
      SurfaceMesh& q = own ? *own : m;
      std::string k = cat("rich data", tag);
      ctx.transition();
      std::string got = tables(q);
      if (got != want) {
        bad(k, "a different mesh: " + got + " should be " + want);
        continue;
      }
      if (own) {
        if (q.usesImplicitTwin() != m.usesImplicitTwin()) bad(k, "a different kind of mesh");
        try {
          q.validateConnectivity();
        } catch (std::exception& x) { bad(k, cat("an invalid mesh: ", x.what())); }
      }
      auto cmp = [&](const char* n, bool ok) {
        if (!ok) bad(k, cat("different values of ", n));
      };
      auto rv = r->getVertexProperty<double>("v");
      auto rh = r->getHalfedgeProperty<int>("h");
      auto rc = r->getCornerProperty<float>("c");
      auto re = r->getEdgeProperty<double>("e");
      auto rf = r->getFaceProperty<int>("f");
      auto rb = r->getBoundaryLoopProperty<double>("b");
      for (Vertex x : m.vertices()) cmp("vertices", rv[q.vertex(x.getIndex())] == v[x]);
      for (Halfedge x : m.halfedges()) cmp("halfedges", rh[q.halfedge(x.getIndex())] == h[x]);
      for (Corner x : m.corners()) cmp("corners", rc[q.corner(x.getIndex())] == c[x]);
      for (Edge x : m.edges()) cmp("edges", re[q.edge(x.getIndex())] == e[x]);
      for (Face x : m.faces()) cmp("faces", rf[q.face(x.getIndex())] == f[x]);
      for (BoundaryLoop x : m.boundaryLoops()) cmp("boundary loops", rb[q.boundaryLoop(x.getIndex())] == b[x]);
      auto col = r->getVertexColors();
      for (Vertex x : m.vertices()) cmp("colors", std::abs(col[q.vertex(x.getIndex())].x - red[x] / 255.) < 1e-15 && col[q.vertex(x.getIndex())].y == 1. && std::abs(col[q.vertex(x.getIndex())].z - blue[x] / 255.) < 1e-15);
      auto gg = r->getGeometry();
      for (Vertex x : m.vertices()) cmp("positions", norm(gg->vertexPositions[q.vertex(x.getIndex())] - g.vertexPositions[x]) == 0);
      auto gi = r->getIntrinsicGeometry();
      gi->requireEdgeLengths();
      for (Edge x : m.edges()) cmp("edge lengths", gi->edgeLengths[q.edge(x.getIndex())] == g.edgeLengths[x]);
      // the mesh that was read can be changed further
      if (own) {
        try {
          if (auto* mq = dynamic_cast<ManifoldSurfaceMesh*>(&q)) {
            Face x = *q.faces().begin();
            mq->insertVertex(x);
            q.validateConnectivity();
            if (!q.boundaryLoops().begin().operator==(q.boundaryLoops().end())) ctx.outcome("rich data with boundary");
          }
          q.compress();
          q.validateConnectivity();
        } catch (std::exception& x) { bad(k, cat("the mesh cannot be used: ", x.what())); }
      }
    }
    g.unrequireEdgeLengths();
    ctx.outcome("rich data" + tag);
  }
  // outward orientation of convex bodies (each a component), from every pattern of orientations
  void outward(const Polys& P, const std::vector<Vector3>& p, const std::vector<Vector3>& center, const std::vector<size_t>& comp, unsigned mask) {
    SimplePolygonMesh s;
    s.polygons = P;
    s.vertexCoordinates = p;
    for (size_t f = 0; f < P.size(); f++) {
      if (mask >> (f % 16) & 1) std::reverse(s.polygons[f].begin(), s.polygons[f].end());
      s.paramCoordinates.emplace_back();
      for (size_t v : s.polygons[f]) s.paramCoordinates.back().push_back({1. * v, 1. * f});
    }
    s.consistentlyOrientFaces(true);
    ctx.transition();
    for (size_t f = 0; f < P.size(); f++) {
      std::set<size_t> a(s.polygons[f].begin(), s.polygons[f].end()), b(P[f].begin(), P[f].end());
      if (a != b) bad("outward orientation", "changes a face");
      Vector3 x = p[s.polygons[f][0]], n = cross(p[s.polygons[f][1]] - x, p[s.polygons[f][2]] - x);
      if (dot(n, x - center[comp[f]]) < 0) bad("outward orientation", cat("face ", f, " points inward"));
      for (size_t i = 0; i < 3; i++)
        if (s.paramCoordinates[f][i].x != s.polygons[f][i]) bad("outward orientation", "texture coordinates do not follow");
    }
    ctx.outcome("outward");
  }
  // ---------------------------------------------------------------- point clouds
  void cloud(size_t n, Scratch& S) {
    using namespace geometrycentral::pointcloud;
    PointCloud c(n);
    PointPositionGeometry g(c);
    for (size_t i = 0; i < n; i++) g.positions[i] = Vector3{i / 3., -1e-17 * i, 1e20 * i};
    std::vector<Vector3> want;
    for (size_t i = 0; i < n; i++)
      want.push_back({i / 3., -1e-17 * i, 1e20 * i});
    for (const char* type : {"obj", "ply"})
      for (int how = 0; how < 3; how++) {
        std::unique_ptr<PointCloud> q;
        std::unique_ptr<PointPositionGeometry> h;
        if (how == 0) {
          std::stringstream s;
          writePointCloud(c, g, s, type);
          std::tie(q, h) = readPointCloud(s, type);
        } else {
          std::string f = S.file(how == 1 ? cat("c.", type) : std::string("c.txt"));
          writePointCloud(c, g, f, how == 1 ? "" : type);
          std::tie(q, h) = readPointCloud(f, how == 1 ? "" : type);
        }
        std::vector<Vector3> got;
        for (Point p : q->points()) got.push_back(h->positions[p]);
        if (!same(got, want)) bad(cat("point cloud ", type), cat(got.size(), " points, or wrong positions"));
        ctx.transition();
      }
    ctx.outcome("cloud");
  }
};
int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C26";
  o.technique = "exhaustive enumeration of small polygon soups with sequences of cleanup operations, of text format variants, and of meshes written and read";
  o.level = "bounded exhaustive exploration of the real code";
  o.rule = "all soups of up to three faces from a set of faces with repeated and missing vertices, every sequence of cleanup operations up to the depth; every formatting variant of OBJ, OFF, STL; every suite mesh, with and without deleted elements";
  o.assumptions = {"the PLY container (happly) is absent here and replaced by a table with the same interface; its byte format is not explored"};
  o.exhaustive = true;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool T = ctx.thorough;
    Scratch S;
    Polys faces = {{}, {1}, {0, 1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {1, 2, 3}, {3, 2, 1}, {0, 1, 3}, {0, 2, 3, 1}, {0, 1, 2, 3}, {0, 1, 1}, {0, 5, 4}, {4, 2, 0, 4}, {0, 1, 7}, {3, 0, 2, 1, 4}, {0, 1, 2, 3, 4, 5, 0, 1}, {5, 4, 3, 2, 1, 0, 9, 8}};
    for (size_t k = 0; k <= 3; k++)
      gen::multisets(faces.size(), k, [&](const std::vector<size_t>& ix) {
        std::vector<size_t> x = ix;
        do {
          std::string id = "soup";
          for (size_t i : x) id += cat("-", i);
          if (!ctx.begin(id)) continue;
          ctx.state(hashStr(id));
          Polys P;
          for (size_t i : x) P.push_back(faces[i]);
          Case(ctx, id).cleanup(P, 6, T ? (k < 3 ? 5 : 4) : k < 3 ? 4 : 3);
        } while (std::next_permutation(x.begin(), x.end()));
      });
    // all sets of oriented triangles on five vertices: orientation
    {
      Polys tri;
      for (size_t a = 0; a < 5; a++)
        for (size_t b = a + 1; b < 5; b++)
          for (size_t c = b + 1; c < 5; c++) tri.push_back({a, b, c});
      for (unsigned mask = 1; mask < 1024; mask++) {
        int n = __builtin_popcount(mask);
        std::string id = cat("orient", mask);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        for (unsigned flip = 0; flip < (1u << n); flip++) {
          Polys P;
          int k = 0;
          for (int i = 0; i < 10; i++)
            if (mask >> i & 1) {
              Poly f = tri[i];
              if (flip >> k++ & 1) std::swap(f[1], f[2]);
              P.push_back(f);
            }
          SimplePolygonMesh s = Case::soup(P, 5, true);
          Case(ctx, id).apply(s, Case::ORIENT, pstr(P));
        }
      }
    }
    // text formats
    std::vector<Polys> sets = {{}, {{0, 1, 2}}, {{0, 1, 2}, {2, 1, 3}}, {{0, 1, 2, 3}, {3, 2, 4}, {0, 3, 4, 5, 1}}, {{5, 3, 1}, {0, 2, 4}}, gen::tetra(), gen::cube()};
    for (size_t k = 0; k < sets.size(); k++) {
      std::vector<Vector3> p;
      for (size_t i = 0; i < std::max<size_t>(6, gen::maxVert(sets[k]) + 1); i++) p.push_back({std::sqrt(i + .3), i == 2 ? -0. : i == 3 ? 5e-324 : -1e17 / (i + 7.), i / 7. * 1e-9});
      for (int x = 0; x < 5 * 2 * 2 * 2 * 2 * 2 * 3 * 2; x++) {
        std::string id = cat("obj", k, "-", x);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        int y = x;
        Case::Fmt f;
        auto take = [&](int n) {
          int r = y % n;
          y /= n;
          return r;
        };
        f.index = take(5);
        f.relative = take(2);
        f.cont = take(2);
        f.eol = take(2);
        f.comments = take(2);
        f.inter = take(2);
        f.style = take(3);
        f.shared = take(2);
        if (sets[k].empty() && f.index != 0) continue;
        Case(ctx, id).obj(sets[k], p, f);
      }
      for (int st = 0; st < 24; st++) {
        std::string id = cat("off", k, "-", st);
        if (ctx.begin(id)) {
          ctx.state(hashStr(id));
          Case(ctx, id).off(sets[k], p, st);
        }
        std::vector<Vector3> q;
        for (size_t i = 0; i < p.size(); i++) q.push_back({1. * (i % 2) + .25 * i, .5 * (i / 2), i == 5 ? -3. : .125 * i * i});
        id = cat("stl", k, "-", st);
        if (st < 16 && ctx.begin(id)) {
          ctx.state(hashStr(id));
          Polys P;
          for (auto& f : sets[k])
            for (size_t i = 2; i < f.size(); i++) P.push_back({f[0], f[i - 1], f[i]});
          if (P.empty()) continue;
          Case(ctx, id).stl(P, q, st);
          if (st & 1) // the contents of the header and of the attributes do not matter
            for (char h : {'\0', '\n', ' ', 'S'})
              for (const char* a : {"\0\0", "  ", "\t ", "\n\r", "\xff\xff", "1 ", "x\v"}) Case(ctx, id).stl(P, q, st, h, std::string(a, 2));
        }
      }
    }
    // outward
    {
      auto t = geo::tetrahedron(), oc = geo::octahedron(), ic = geo::icosahedron();
      for (unsigned mask = 0; mask < (T ? 65536u : 4096u); mask++) {
        std::string id = cat("outward", mask);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        const geo::Shape& s = mask % 3 == 0 ? t : mask % 3 == 1 ? oc : ic;
        Vector3 c{0, 0, 0};
        for (auto& x : s.p) c += x / (double)s.p.size();
        Polys P = s.P;
        std::vector<Vector3> p = s.p, cs = {c};
        std::vector<size_t> comp(P.size(), 0);
        if (mask % 2) { // with a second body next to it
          for (auto& f : t.P) {
            Poly g = f;
            for (auto& v : g) v += s.p.size();
            P.push_back(g);
            comp.push_back(1);
          }
          for (auto& x : t.p) p.push_back(x * .5 + Vector3{50, 1, 2});
          cs.push_back(Vector3{50.25, 1.25, 2.25});
        }
        Case(ctx, id).outward(P, p, cs, comp, mask * 2654435761u >> 8);
      }
    }
    // meshes
    for (auto& s : suite::triShapes(T))
      for (int kind = 0; kind < 4; kind++) {
        std::string id = cat(s.name, "-", kind);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        suite::In in = suite::from(suite::jitter(s, .3));
        in.build();
        if (kind & 1 && !suite::punch(in)) continue;
        if (kind & 2) {
          auto g = in.mesh->copyToSurfaceMesh();
          VertexPositionGeometry vg(*g, in.vpg->vertexPositions.reinterpretTo(*g));
          Case(ctx, id).meshes(*g, vg, S);
          Case(ctx, id).rich(*g, vg, S);
        } else {
          Case(ctx, id).meshes(*in.mesh, *in.vpg, S);
          Case(ctx, id).rich(*in.mesh, *in.vpg, S);
        }
      }
    // polygons, histories which leave holes in every kind of element
    for (int w = 1; w <= 3; w++)
      for (int ops = 0; ops < 64; ops++) {
        std::string id = cat("quads", w, "-", ops);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        geo::Shape s = geo::planarGrid(w, 2, 2, true);
        auto e = geo::manifold(s.P, s.p);
        ManifoldSurfaceMesh& m = *e.mesh;
        auto pick = [&](int k) {
          size_t i = 0, n = m.nEdges();
          for (Edge x : m.edges())
            if (i++ == (k * 5u + ops) % n) return x;
          return *m.edges().begin();
        };
        if (ops & 1) {
          Halfedge h = m.insertVertexAlongEdge(pick(1));
          e.geom->vertexPositions[h.vertex()] = Vector3{.5, .25, 3};
        }
        if (ops & 2) m.triangulate(*m.faces().begin());
        if (ops & 4) {
          Edge x = pick(2);
          if (!x.isBoundary()) m.removeEdge(x);
        }
        if (ops & 8 && m.nFaces() > 1)
          for (Halfedge h : m.interiorHalfedges())
            if (h.edge().isBoundary()) {
              m.removeFaceAlongBoundary(h.face());
              break;
            }
        if (ops & 16) {
          Vertex v = m.insertVertex(*m.faces().begin());
          e.geom->vertexPositions[v] = Vector3{.1, .2, .3};
        }
        if (ops & 32) m.compress();
        Case(ctx, id).meshes(m, *e.geom, S);
        Case(ctx, id).rich(m, *e.geom, S);
      }
    // general meshes
    std::vector<Polys> G = {gen::book(3), gen::book(5), {{0, 1, 2}, {0, 1, 3}}, {{0, 1, 2}, {2, 3, 4}}, {{0, 1, 2}, {3, 1, 0}, {0, 1, 4}, {2, 4, 0}}, gen::disjointUnion(gen::tetra(), gen::book(3))};
    for (size_t k = 0; k < G.size(); k++) {
      std::string id = cat("general", k);
      if (!ctx.begin(id)) continue;
      ctx.state(hashStr(id));
      geo::Pts p;
      for (size_t i = 0; i <= gen::maxVert(G[k]); i++) p.push_back({std::cos(i * 1.7), std::sin(i * 2.3), .4 * i});
      auto e = geo::general(G[k], p);
      Case(ctx, id).meshes(*e.mesh, *e.geom, S);
      Case(ctx, id).rich(*e.mesh, *e.geom, S);
    }
    for (size_t n = 0; n < 6; n++)
      {
        std::string id = cat("cloud", n);
        if (!ctx.begin(id)) continue;
        ctx.state(hashStr(id));
        Case(ctx, id).cloud(n, S);
      }
  });
}
