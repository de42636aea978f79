// Compare every navigation / iteration / query answer of a mesh with the reference half-edge system.
#pragma once
#include "gen.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include <numeric>

namespace nav {
using namespace geometrycentral;
using namespace geometrycentral::surface;
using gen::HS;
using mc::cat;

struct Handles {
  std::vector<Halfedge> H;
  std::vector<Vertex> V;
  std::vector<Edge> E;
  std::vector<Face> F;
  std::vector<BoundaryLoop> B;
};

#define NAV_CHECK(c, ...)                                                                                             \
  do {                                                                                                                \
    if (!(c)) return mc::cat(#c, " :: ", __VA_ARGS__);                                                                \
  } while (0)

// derive the handle of every reference element from the faces' designated halfedges
inline std::string bind(SurfaceMesh& m, const HS& s, Handles& h) {
  if (h.V.empty())
    for (int v = 0; v < s.nV; v++) h.V.push_back(m.vertex(v));
  if (h.F.empty())
    for (int f = 0; f < s.nF; f++) h.F.push_back(m.face(f));
  h.H.assign(s.nH(), Halfedge());
  h.E.assign(s.nE, Edge());
  h.B.assign(s.nB, BoundaryLoop());
  for (int f = 0; f < s.nF; f++) {
    int c = s.fHe[f];
    Halfedge he = h.F[f].halfedge();
    int guard = 0;
    do {
      NAV_CHECK(guard++ <= s.nH(), "face walk of face ", f, " does not close");
      h.H[c] = he;
      NAV_CHECK(he.vertex() == h.V[s.tail[c]], "corner of face ", f, " is vertex ", he.vertex().getIndex(), " expected ", s.tail[c]);
      c = s.next[c];
      he = he.next();
    } while (c != s.fHe[f]);
    NAV_CHECK(he == h.F[f].halfedge(), "face ", f, " has a different degree than the polygon");
  }
  if (s.manifold)
    for (int c = 0; c < s.nH(); c++)
      if (!s.interior(c)) {
        h.H[c] = h.H[s.twin(c)].twin();
        NAV_CHECK(!h.H[c].isInterior(), "twin of boundary halfedge is interior, edge ", s.edge[c]);
        h.B[-1 - s.face[c]] = h.H[c].face().asBoundaryLoop();
      }
  for (int c = 0; c < s.nH(); c++) h.E[s.edge[c]] = h.H[c].edge();
  return "";
}

namespace detail {
template <class E>
inline std::string index(const std::vector<E>& v, size_t size, std::vector<int>& back, const char* what) {
  back.assign(size, -1);
  for (size_t i = 0; i < v.size(); i++) {
    size_t k = v[i].getIndex();
    NAV_CHECK(k < size, what, " handle out of range");
    NAV_CHECK(back[k] < 0, what, " ", i, " and ", back[k], " share a handle");
    back[k] = (int)i;
  }
  return "";
}
template <class S, class B>
inline std::vector<int> collect(const S& set, const B& back, size_t limit, bool& over) {
  std::vector<int> r;
  over = false;
  for (auto x : set) {
    size_t k = x.getIndex();
    r.push_back(k < back.size() ? back[k] : -7);
    if (r.size() > limit) {
      over = true;
      break;
    }
  }
  return r;
}
} // namespace detail

// everything a caller can ask about connectivity; returns "" or the first discrepancy.
// (adjacency sets of Delta-complexes list an element once per incidence)
inline std::string checkNav(SurfaceMesh& m, const HS& s, const Handles& h, bool meshLevel = true) {
  std::vector<int> bh, bv, be, bf, bb;
  std::string r;
  size_t NH = s.nH();
  // --- counts
  size_t nInt = 0;
  for (size_t c = 0; c < NH; c++) nInt += s.interior(c);
  NAV_CHECK(m.nVertices() == (size_t)s.nV, m.nVertices(), " vs ", s.nV);
  NAV_CHECK(m.nEdges() == (size_t)s.nE, m.nEdges(), " vs ", s.nE);
  NAV_CHECK(m.nFaces() == (size_t)s.nF, m.nFaces(), " vs ", s.nF);
  NAV_CHECK(m.nHalfedges() == NH, m.nHalfedges(), " vs ", NH);
  NAV_CHECK(m.nInteriorHalfedges() == nInt, m.nInteriorHalfedges(), " vs ", nInt);
  NAV_CHECK(m.nExteriorHalfedges() == NH - nInt, m.nExteriorHalfedges(), " vs ", NH - nInt);
  NAV_CHECK(m.nCorners() == nInt, m.nCorners(), " vs ", nInt);
  NAV_CHECK(m.nBoundaryLoops() == (size_t)s.nB, m.nBoundaryLoops(), " vs ", s.nB);
  r = detail::index(h.H, m.halfedgeIndexSize(), bh, "halfedge");
  if (!r.empty()) return r;
  r = detail::index(h.V, m.vertexIndexSize(), bv, "vertex");
  if (!r.empty()) return r;
  r = detail::index(h.E, m.edgeIndexSize(), be, "edge");
  if (!r.empty()) return r;
  r = detail::index(h.F, m.faceIndexSize(), bf, "face");
  if (!r.empty()) return r;
  r = detail::index(h.B, m.boundaryLoopIndexSize(), bb, "boundary loop");
  if (!r.empty()) return r;
  auto cmp = [&](std::vector<int> got, std::vector<int> want) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    return got == want;
  };
  bool over;
#define NAV_SET(set, back, want, what)                                                                                \
  do {                                                                                                                \
    auto got_ = detail::collect(set, back, 4 * NH + 8, over);                                                         \
    NAV_CHECK(!over, what, " does not terminate");                                                                    \
    NAV_CHECK(cmp(got_, want), what, " yields ", mc::str(got_), " expected ", mc::str(want));                         \
  } while (0)
  // --- ranges
  {
    std::vector<int> all(NH), in, ex, av(s.nV), ae(s.nE), af(s.nF), ab(s.nB);
    std::iota(all.begin(), all.end(), 0);
    std::iota(av.begin(), av.end(), 0);
    std::iota(ae.begin(), ae.end(), 0);
    std::iota(af.begin(), af.end(), 0);
    std::iota(ab.begin(), ab.end(), 0);
    for (size_t c = 0; c < NH; c++) (s.interior(c) ? in : ex).push_back((int)c);
    NAV_SET(m.halfedges(), bh, all, "halfedges()");
    NAV_SET(m.interiorHalfedges(), bh, in, "interiorHalfedges()");
    NAV_SET(m.exteriorHalfedges(), bh, ex, "exteriorHalfedges()");
    NAV_SET(m.corners(), bh, in, "corners()");
    NAV_SET(m.vertices(), bv, av, "vertices()");
    NAV_SET(m.edges(), be, ae, "edges()");
    NAV_SET(m.faces(), bf, af, "faces()");
    NAV_SET(m.boundaryLoops(), bb, ab, "boundaryLoops()");
  }
  std::vector<std::vector<int>> out(s.nV), in(s.nV);
  for (size_t c = 0; c < NH; c++) {
    out[s.tail[c]].push_back((int)c);
    in[s.tip[c]].push_back((int)c);
  }
  // --- halfedges
  for (size_t c = 0; c < NH; c++) {
    Halfedge he = h.H[c];
    NAV_CHECK(he.vertex() == h.V[s.tail[c]], "halfedge ", c);
    NAV_CHECK(he.tailVertex() == h.V[s.tail[c]], "halfedge ", c);
    NAV_CHECK(he.tipVertex() == h.V[s.tip[c]], "halfedge ", c);
    NAV_CHECK(he.next() == h.H[s.next[c]], "halfedge ", c);
    NAV_CHECK(he.next().prevOrbitFace() == he, "halfedge ", c);
    NAV_CHECK(he.edge() == h.E[s.edge[c]], "halfedge ", c);
    NAV_CHECK(he.isInterior() == s.interior(c), "halfedge ", c);
    NAV_CHECK(he.face().isBoundaryLoop() == !s.interior(c), "halfedge ", c);
    NAV_CHECK(!he.isDead(), "halfedge ", c);
    if (s.interior(c)) {
      NAV_CHECK(he.face() == h.F[s.face[c]], "halfedge ", c);
      NAV_CHECK(he.corner().halfedge() == he, "halfedge ", c);
      NAV_CHECK(he.corner().vertex() == he.vertex(), "halfedge ", c);
      NAV_CHECK(he.corner().face() == he.face(), "halfedge ", c);
    } else
      NAV_CHECK(he.face().asBoundaryLoop() == h.B[-1 - s.face[c]], "halfedge ", c);
    // sibling orbit
    std::vector<int> got;
    Halfedge x = he;
    do {
      size_t k = x.getIndex();
      NAV_CHECK(k < bh.size() && bh[k] >= 0, "sibling orbit leaves the mesh at halfedge ", c);
      got.push_back(bh[k]);
      x = x.sibling();
      NAV_CHECK(got.size() <= NH, "sibling orbit does not close at halfedge ", c);
    } while (x != he);
    NAV_CHECK(cmp(got, s.edgeHe[s.edge[c]]), "sibling orbit of halfedge ", c, " is ", mc::str(got));
    if (s.manifold) {
      int t = s.twin((int)c);
      NAV_CHECK(he.twin() == h.H[t], "halfedge ", c);
      NAV_CHECK(he.nextOutgoingNeighbor() == h.H[s.next[t]], "halfedge ", c);
      NAV_CHECK(he.prevOrbitVertex().next() == he, "halfedge ", c);
    }
    // orbits around the end points
    got.clear();
    x = he;
    do {
      size_t k = x.getIndex();
      NAV_CHECK(k < bh.size() && bh[k] >= 0, "outgoing orbit leaves the mesh at halfedge ", c);
      got.push_back(bh[k]);
      x = x.nextOutgoingNeighbor();
      NAV_CHECK(got.size() <= NH, "outgoing orbit does not close at halfedge ", c);
    } while (x != he);
    NAV_CHECK(cmp(got, out[s.tail[c]]), "outgoing orbit of halfedge ", c, " is ", mc::str(got));
    got.clear();
    x = he;
    do {
      size_t k = x.getIndex();
      NAV_CHECK(k < bh.size() && bh[k] >= 0, "incoming orbit leaves the mesh at halfedge ", c);
      got.push_back(bh[k]);
      x = x.nextIncomingNeighbor();
      NAV_CHECK(got.size() <= NH, "incoming orbit does not close at halfedge ", c);
    } while (x != he);
    NAV_CHECK(cmp(got, in[s.tip[c]]), "incoming orbit of halfedge ", c, " is ", mc::str(got));
  }
  // --- edges
  std::vector<char> eB(s.nE), eM(s.nE), eO(s.nE);
  for (int e = 0; e < s.nE; e++) {
    Edge ed = h.E[e];
    auto& hes = s.edgeHe[e];
    std::vector<int> ih, fa;
    for (int c : hes)
      if (s.interior(c)) {
        ih.push_back(c);
        fa.push_back(s.face[c]);
      }
    size_t k = ed.halfedge().getIndex();
    NAV_CHECK(k < bh.size() && bh[k] >= 0, "edge ", e);
    int c0 = bh[k];
    NAV_CHECK(s.edge[c0] == e, "edge ", e, " halfedge() belongs to another edge");
    NAV_CHECK(s.interior(c0), "edge ", e, " halfedge() must be interior");
    bool self = s.tail[c0] == s.tip[c0];
    NAV_CHECK(!ed.isDead(), "edge ", e);
    NAV_CHECK(ed.firstVertex() == h.V[s.tail[c0]], "edge ", e);
    NAV_CHECK(ed.secondVertex() == h.V[s.tip[c0]], "edge ", e);
    NAV_CHECK(ed.adjacentVertices()[0] == ed.firstVertex() && ed.adjacentVertices()[1] == ed.secondVertex(), "edge ", e);
    NAV_CHECK(ed.otherVertex(ed.firstVertex()) == ed.secondVertex(), "edge ", e);
    NAV_CHECK(ed.otherVertex(ed.secondVertex()) == ed.firstVertex(), "edge ", e);
    for (int c : hes) {
      // (the direction an edge counts as positive is arbitrary)
      bool want = s.manifold ? c == c0 : (s.tail[c] == s.tail[c0]) == h.H[c0].orientation();
      if (s.manifold || !self) NAV_CHECK(h.H[c].orientation() == want, "edge ", e, " halfedge ", c);
    }
    eB[e] = s.manifold ? ih.size() == 1 : hes.size() == 1;
    eM[e] = ih.size() <= 2;
    eO[e] = ih.size() == 1 || (ih.size() == 2 && s.tail[ih[0]] == s.tip[ih[1]] && s.tip[ih[0]] == s.tail[ih[1]]);
    NAV_CHECK(ed.isBoundary() == (bool)eB[e], "edge ", e);
    NAV_CHECK(ed.isManifold() == (bool)eM[e], "edge ", e);
    if (!self) NAV_CHECK(ed.isOriented() == (bool)eO[e], "edge ", e);
    NAV_CHECK(ed.degree() == ih.size(), "edge ", e);
    NAV_SET(ed.adjacentHalfedges(), bh, hes, cat("edge ", e, " adjacentHalfedges"));
    NAV_SET(ed.adjacentInteriorHalfedges(), bh, ih, cat("edge ", e, " adjacentInteriorHalfedges"));
    NAV_SET(ed.adjacentFaces(), bf, fa, cat("edge ", e, " adjacentFaces"));
    // diamond
    bool can = ih.size() == 2;
    auto tri = [&](int c) { return s.next[s.next[s.next[c]]] == c; };
    if (can) can = tri(ih[0]) && tri(ih[1]);
    bool threw = false;
    std::array<Halfedge, 4> d;
    try {
      d = ed.diamondBoundary();
    } catch (const std::runtime_error&) {
      threw = true;
    }
    NAV_CHECK(threw == !can, "edge ", e, " diamondBoundary");
    if (can) {
      int c1 = hes[0] == c0 ? hes[1] : hes[0];
      NAV_CHECK(d[0] == h.H[s.next[c0]] && d[1] == h.H[s.next[s.next[c0]]] && d[2] == h.H[s.next[c1]] && d[3] == h.H[s.next[s.next[c1]]], "edge ", e, " diamondBoundary content");
    }
  }
  // --- faces
  bool allTri = true;
  for (int f = 0; f < s.nF; f++) {
    Face fa = h.F[f];
    size_t k = fa.halfedge().getIndex();
    NAV_CHECK(k < bh.size() && bh[k] >= 0 && s.face[bh[k]] == f, "face ", f, " halfedge()");
    std::vector<int> seqH, seqV, seqE, adjF;
    int c = bh[k];
    do {
      seqH.push_back(c);
      seqV.push_back(s.tail[c]);
      seqE.push_back(s.edge[c]);
      for (int o : s.edgeHe[s.edge[c]])
        if (o != c && s.interior(o)) adjF.push_back(s.face[o]);
      c = s.next[c];
    } while (c != bh[k]);
    auto seq = [&](const std::vector<int>& got, const std::vector<int>& want) { return got == want; };
    auto g1 = detail::collect(fa.adjacentHalfedges(), bh, 4 * NH + 8, over);
    NAV_CHECK(seq(g1, seqH), "face ", f, " adjacentHalfedges ", mc::str(g1));
    auto g2 = detail::collect(fa.adjacentVertices(), bv, 4 * NH + 8, over);
    NAV_CHECK(seq(g2, seqV), "face ", f, " adjacentVertices ", mc::str(g2));
    auto g3 = detail::collect(fa.adjacentEdges(), be, 4 * NH + 8, over);
    NAV_CHECK(seq(g3, seqE), "face ", f, " adjacentEdges ", mc::str(g3));
    auto g4 = detail::collect(fa.adjacentCorners(), bh, 4 * NH + 8, over);
    NAV_CHECK(seq(g4, seqH), "face ", f, " adjacentCorners ", mc::str(g4));
    NAV_SET(fa.adjacentFaces(), bf, adjF, cat("face ", f, " adjacentFaces"));
    NAV_CHECK(fa.degree() == seqH.size(), "face ", f);
    NAV_CHECK(fa.isTriangle() == (seqH.size() == 3), "face ", f);
    NAV_CHECK(!fa.isBoundaryLoop() && !fa.isDead(), "face ", f);
    allTri = allTri && seqH.size() == 3;
  }
  // --- boundary loops
  for (int b = 0; b < s.nB; b++) {
    BoundaryLoop bl = h.B[b];
    size_t k = bl.halfedge().getIndex();
    NAV_CHECK(k < bh.size() && bh[k] >= 0 && s.face[bh[k]] == -1 - b, "loop ", b, " halfedge()");
    std::vector<int> seqH, seqV, seqE;
    int c = bh[k];
    do {
      seqH.push_back(c);
      seqV.push_back(s.tail[c]);
      seqE.push_back(s.edge[c]);
      c = s.next[c];
    } while (c != bh[k]);
    auto g1 = detail::collect(bl.adjacentHalfedges(), bh, 4 * NH + 8, over);
    NAV_CHECK(g1 == seqH, "loop ", b, " adjacentHalfedges ", mc::str(g1));
    auto g2 = detail::collect(bl.adjacentVertices(), bv, 4 * NH + 8, over);
    NAV_CHECK(g2 == seqV, "loop ", b, " adjacentVertices ", mc::str(g2));
    auto g3 = detail::collect(bl.adjacentEdges(), be, 4 * NH + 8, over);
    NAV_CHECK(g3 == seqE, "loop ", b, " adjacentEdges ", mc::str(g3));
    NAV_CHECK(bl.degree() == seqH.size(), "loop ", b);
    NAV_CHECK(bl.asFace().isBoundaryLoop() && bl.asFace().asBoundaryLoop() == bl && !bl.isDead(), "loop ", b);
  }
  // --- vertices
  std::vector<char> vB(s.nV, 0), vM(s.nV, 1);
  for (int v = 0; v < s.nV; v++) {
    Vertex ve = h.V[v];
    size_t k = ve.halfedge().getIndex();
    NAV_CHECK(!ve.isDead(), "vertex ", v);
    NAV_CHECK(k < bh.size() && bh[k] >= 0 && s.tail[bh[k]] == v, "vertex ", v, " halfedge() does not leave it");
    std::vector<int> aV, aE, aF, aC;
    for (int e = 0; e < s.nE; e++) {
      int c = s.edgeHe[e][0];
      if (s.tail[c] == v) {
        aE.push_back(e);
        aV.push_back(s.tip[c]);
      }
      if (s.tip[c] == v) {
        aE.push_back(e);
        aV.push_back(s.tail[c]);
      }
      if (s.tail[c] == v || s.tip[c] == v) vB[v] |= eB[e];
    }
    for (int c : out[v])
      if (s.interior(c)) {
        aF.push_back(s.face[c]);
        aC.push_back(c);
      }
    if (s.manifold && vB[v]) {
      int c = bh[k];
      NAV_CHECK(s.interior(c) && !s.interior(s.twin(c)), "boundary vertex ", v, " halfedge() is not the interior halfedge along the boundary");
    }
    NAV_CHECK(s.interior(bh[k]), "vertex ", v, " halfedge() not interior");
    NAV_CHECK(ve.corner().halfedge() == ve.halfedge(), "vertex ", v);
    NAV_SET(ve.outgoingHalfedges(), bh, out[v], cat("vertex ", v, " outgoingHalfedges"));
    NAV_SET(ve.incomingHalfedges(), bh, in[v], cat("vertex ", v, " incomingHalfedges"));
    NAV_SET(ve.adjacentVertices(), bv, aV, cat("vertex ", v, " adjacentVertices"));
    NAV_SET(ve.adjacentEdges(), be, aE, cat("vertex ", v, " adjacentEdges"));
    NAV_SET(ve.adjacentFaces(), bf, aF, cat("vertex ", v, " adjacentFaces"));
    NAV_SET(ve.adjacentCorners(), bh, aC, cat("vertex ", v, " adjacentCorners"));
    NAV_CHECK(ve.degree() == aE.size(), "vertex ", v, " degree ", ve.degree(), " expected ", aE.size());
    NAV_CHECK(ve.faceDegree() == aF.size(), "vertex ", v, " faceDegree");
    NAV_CHECK(ve.isBoundary() == (bool)vB[v], "vertex ", v, " isBoundary");
    // manifoldness: all incident edges manifold, corner star connected through incident edges
    if (!s.manifold) {
      bool simple = true; // skip vertices that meet the same face twice (not determined by the statement)
      std::set<int> fs;
      for (int f : aF) simple = simple && fs.insert(f).second;
      bool mf = true, orient = true;
      for (int e : aE) {
        mf = mf && eM[e];
        orient = orient && eO[e];
      }
      if (mf) {
        std::map<int, int> uf;
        for (int f : aF) uf[f] = f;
        std::function<int(int)> fd = [&](int x) { return uf[x] == x ? x : uf[x] = fd(uf[x]); };
        for (int e : aE)
          for (int c : s.edgeHe[e]) uf[fd(s.face[c])] = fd(s.face[s.edgeHe[e][0]]);
        for (int f : aF) mf = mf && fd(f) == fd(aF[0]);
      }
      vM[v] = mf;
      if (simple) {
        NAV_CHECK(ve.isManifold() == mf, "vertex ", v, " isManifold, expected ", mf);
        NAV_CHECK(ve.isManifoldAndOriented() == (mf && orient), "vertex ", v, " isManifoldAndOriented, expected ", mf && orient);
      } else
        vM[v] = 2;
    } else
      NAV_CHECK(ve.isManifold() && ve.isManifoldAndOriented(), "vertex ", v);
  }
  if (!meshLevel) return "";
  // --- whole-mesh queries
  bool anyB = false, edgeM = true, orient = true, vertM = true, known = true;
  for (int e = 0; e < s.nE; e++) {
    anyB = anyB || eB[e];
    edgeM = edgeM && eM[e];
    orient = orient && eO[e];
  }
  size_t nIntV = 0;
  for (int v = 0; v < s.nV; v++) {
    if (vM[v] == 2) known = false;
    else vertM = vertM && vM[v];
    nIntV += !vB[v];
  }
  bool hasSelf = false;
  for (size_t c = 0; c < NH; c++) hasSelf = hasSelf || s.tail[c] == s.tip[c];
  NAV_CHECK(m.hasBoundary() == anyB, "");
  NAV_CHECK(m.isTriangular() == allTri, "");
  NAV_CHECK(m.isEdgeManifold() == edgeM, "");
  if (!hasSelf) NAV_CHECK(m.isOriented() == (orient && edgeM), "");
  if (known || !edgeM || !vertM) NAV_CHECK(m.isManifold() == (edgeM && vertM), "");
  NAV_CHECK(m.nInteriorVertices() == nIntV, m.nInteriorVertices(), " vs ", nIntV);
  // components
  size_t comps = 0;
  {
    std::vector<int> uf(s.nV);
    std::iota(uf.begin(), uf.end(), 0);
    std::function<int(int)> fd = [&](int x) { return uf[x] == x ? x : uf[x] = fd(uf[x]); };
    for (size_t c = 0; c < NH; c++) uf[fd(s.tail[c])] = fd(s.tip[c]);
    for (int v = 0; v < s.nV; v++) comps += fd(v) == v;
    NAV_CHECK(m.nConnectedComponents() == comps, m.nConnectedComponents(), " vs ", comps);
  }
  if (s.manifold) {
    auto& mm = static_cast<ManifoldSurfaceMesh&>(m);
    int chi = s.nV - s.nE + s.nF + s.nB; // boundary loops capped off
    NAV_CHECK(mm.eulerCharacteristic() == chi, mm.eulerCharacteristic(), " vs ", chi);
    if (comps == 1) NAV_CHECK(mm.genus() == (2 - chi) / 2, mm.genus(), " vs ", (2 - chi) / 2);
  }
  // per-element status arrays
  {
    auto vs = m.getVertexBoundaryStatus();
    auto vm = m.getVertexManifoldStatus();
    for (int v = 0; v < s.nV; v++) {
      NAV_CHECK(vs[h.V[v]] == (bool)vB[v], "vertex ", v);
      if (vM[v] != 2) NAV_CHECK(vm[h.V[v]] == (bool)vM[v], "vertex ", v);
    }
    auto em = m.getEdgeManifoldStatus();
    auto eo = m.getEdgeOrientedStatus();
    for (int e = 0; e < s.nE; e++) {
      NAV_CHECK(em[h.E[e]] == (bool)eM[e], "edge ", e);
      int c = s.edgeHe[e][0];
      if (s.tail[c] != s.tip[c]) NAV_CHECK(eo[h.E[e]] == (bool)(eM[e] && eO[e]), "edge ", e);
    }
  }
  // dense enumerations follow iteration order
  {
    size_t i = 0;
    auto vi = m.getVertexIndices();
    for (Vertex v : m.vertices()) NAV_CHECK(vi[v] == i++, "getVertexIndices");
    i = 0;
    auto ii = m.getInteriorVertexIndices();
    for (Vertex v : m.vertices()) {
      size_t want = vB[bv[v.getIndex()]] ? INVALID_IND : i++;
      NAV_CHECK(ii[v] == want, "getInteriorVertexIndices");
    }
    i = 0;
    auto hi = m.getHalfedgeIndices();
    for (Halfedge x : m.halfedges()) NAV_CHECK(hi[x] == i++, "getHalfedgeIndices");
    i = 0;
    auto ci = m.getCornerIndices();
    for (Corner x : m.corners()) NAV_CHECK(ci[x] == i++, "getCornerIndices");
    i = 0;
    auto ei = m.getEdgeIndices();
    for (Edge x : m.edges()) NAV_CHECK(ei[x] == i++, "getEdgeIndices");
    i = 0;
    auto fi = m.getFaceIndices();
    for (Face x : m.faces()) NAV_CHECK(fi[x] == i++, "getFaceIndices");
    i = 0;
    auto bi = m.getBoundaryLoopIndices();
    for (BoundaryLoop x : m.boundaryLoops()) NAV_CHECK(bi[x] == i++, "getBoundaryLoopIndices");
    // face list, in terms of the dense vertex indices
    auto fl = m.getFaceVertexList();
    NAV_CHECK(fl.size() == (size_t)s.nF, "getFaceVertexList");
    i = 0;
    bool sameDeg = true;
    for (Face f : m.faces()) {
      std::vector<size_t> want;
      for (Halfedge x : f.adjacentHalfedges()) want.push_back(vi[x.vertex()]);
      NAV_CHECK(fl[i] == want, "getFaceVertexList face ", i);
      sameDeg = sameDeg && want.size() == fl[0].size();
      i++;
    }
    if (sameDeg && s.nF > 0) {
      DenseMatrix<size_t> M = m.getFaceVertexMatrix<size_t>();
      NAV_CHECK(M.rows() == (long)fl.size() && M.cols() == (long)fl[0].size(), "getFaceVertexMatrix shape");
      for (size_t a = 0; a < fl.size(); a++)
        for (size_t b = 0; b < fl[a].size(); b++) NAV_CHECK(M(a, b) == fl[a][b], "getFaceVertexMatrix");
    }
  }
  // connectingEdge for every pair
  if (s.nV <= 12)
    for (int a = 0; a < s.nV; a++)
      for (int b = 0; b < s.nV; b++) {
        bool ex = false;
        for (int e = 0; e < s.nE && !ex; e++) {
          int c = s.edgeHe[e][0];
          ex = (s.tail[c] == a && s.tip[c] == b) || (s.tail[c] == b && s.tip[c] == a);
        }
        Edge got = m.connectingEdge(h.V[a], h.V[b]);
        NAV_CHECK((got != Edge()) == ex, "connectingEdge ", a, " ", b);
        if (ex) {
          int e = got.getIndex() < be.size() ? be[got.getIndex()] : -1;
          NAV_CHECK(e >= 0, "connectingEdge ", a, " ", b);
          int c = s.edgeHe[e][0];
          NAV_CHECK((s.tail[c] == a && s.tip[c] == b) || (s.tail[c] == b && s.tip[c] == a), "connectingEdge ", a, " ", b, " returned an edge joining other vertices");
        }
      }
  m.validateConnectivity();
  return "";
}
} // namespace nav
