// Reference combinatorial map that is edited step by step next to a real ManifoldSurfaceMesh.
// Slots (halfedge/vertex/face/loop numbers) are never reused, so "which element is which" survives every edit.
#pragma once
#include "nav.h"

namespace ref {
using namespace geometrycentral;
using namespace geometrycentral::surface;
using gen::HS;
using mc::cat;

struct Ref {
  std::vector<int> tail, next, twin; // tail<0: deleted slot
  std::vector<int> face;             // >=0 face, <0: -(1+loop)
  int nV = 0, nF = 0, nB = 0;        // number of slots ever used
  std::vector<char> vAlive, fAlive, bAlive;
  // handles of the real mesh
  std::vector<Halfedge> H;
  std::vector<Vertex> V;
  std::vector<Face> F;
  std::vector<BoundaryLoop> B;

  int nH() const { return (int)tail.size(); }
  bool alive(int h) const { return tail[h] >= 0; }
  int tip(int h) const { return tail[next[h]]; }
  bool interior(int h) const { return face[h] >= 0; }
  int prev(int h) const {
    int c = h;
    while (next[c] != h) c = next[c];
    return c;
  }
  std::vector<int> cycle(int h) const {
    std::vector<int> r;
    int c = h;
    do {
      r.push_back(c);
      c = next[c];
    } while (c != h);
    return r;
  }
  std::vector<int> outgoing(int v) const {
    std::vector<int> r;
    for (int h = 0; h < nH(); h++)
      if (alive(h) && tail[h] == v) r.push_back(h);
    return r;
  }
  std::vector<int> faceHes(int f) const {
    for (int h = 0; h < nH(); h++)
      if (alive(h) && face[h] == f) return cycle(h);
    return {};
  }
  int degree(int h) const { return (int)cycle(h).size(); }
  bool bEdge(int h) const { return !interior(h) || !interior(twin[h]); }
  bool bVert(int v) const {
    for (int h : outgoing(v))
      if (bEdge(h)) return true;
    return false;
  }
  // one representative halfedge per edge
  std::vector<int> edges() const {
    std::vector<int> r;
    for (int h = 0; h < nH(); h++)
      if (alive(h) && h < twin[h]) r.push_back(h);
    return r;
  }
  std::vector<int> faces() const {
    std::vector<int> r;
    for (int f = 0; f < nF; f++)
      if (fAlive[f]) r.push_back(f);
    return r;
  }
  std::vector<int> verts() const {
    std::vector<int> r;
    for (int v = 0; v < nV; v++)
      if (vAlive[v]) r.push_back(v);
    return r;
  }
  // --- edits
  int newV() {
    vAlive.push_back(1);
    V.push_back(Vertex());
    return nV++;
  }
  int newF() {
    fAlive.push_back(1);
    F.push_back(Face());
    return nF++;
  }
  int newB() {
    bAlive.push_back(1);
    B.push_back(BoundaryLoop());
    return nB++;
  }
  int newPair(int vTail, int vTip) { // returns h, twin is h+1
    int h = nH();
    tail.push_back(vTail);
    tail.push_back(vTip);
    next.push_back(-1);
    next.push_back(-1);
    twin.push_back(h + 1);
    twin.push_back(h);
    face.push_back(0);
    face.push_back(0);
    H.push_back(Halfedge());
    H.push_back(Halfedge());
    return h;
  }
  void kill(int h) { tail[h] = -1; }
  void setCycle(const std::vector<int>& c, int f) {
    for (size_t i = 0; i < c.size(); i++) {
      next[c[i]] = c[(i + 1) % c.size()];
      face[c[i]] = f;
    }
  }

  static Ref from(const HS& s) {
    Ref r;
    r.tail = s.tail;
    r.next = s.next;
    r.face = s.face;
    r.twin.resize(s.nH());
    for (int h = 0; h < s.nH(); h++) r.twin[h] = s.twin(h);
    for (int v = 0; v < s.nV; v++) r.newV();
    for (int f = 0; f < s.nF; f++) r.newF();
    for (int b = 0; b < s.nB; b++) r.newB();
    r.H.assign(s.nH(), Halfedge());
    return r;
  }
  std::string bindAll(SurfaceMesh& m, const HS& s) {
    nav::Handles h;
    std::string e = nav::bind(m, s, h);
    if (!e.empty()) return e;
    H = h.H;
    V = h.V;
    F = h.F;
    B = h.B;
    return "";
  }
  // find the handles of elements that were created (or deliberately unbound) by walking from known ones
  std::string bindNew() {
    bool more = true;
    while (more) {
      more = false;
      for (int h = 0; h < nH(); h++) {
        if (!alive(h) || H[h] == Halfedge()) continue;
        if (H[next[h]] == Halfedge()) {
          H[next[h]] = H[h].next();
          more = true;
        }
        if (H[twin[h]] == Halfedge()) {
          H[twin[h]] = H[h].twin();
          more = true;
        }
      }
    }
    for (int h = 0; h < nH(); h++) {
      if (!alive(h)) continue;
      if (H[h] == Halfedge()) return cat("halfedge slot ", h, " not reachable");
      if (V[tail[h]] == Vertex()) V[tail[h]] = H[h].vertex();
      if (face[h] >= 0) {
        if (F[face[h]] == Face()) F[face[h]] = H[h].face();
        if (H[h].face().isBoundaryLoop()) return cat("halfedge ", h, " should be in a face but is in a boundary loop");
      } else {
        if (!H[h].face().isBoundaryLoop()) return cat("halfedge ", h, " should be in a boundary loop but is in a face");
        // the loop handles are indices counted from the back; refresh only the ones we do not know
        if (B[-1 - face[h]] == BoundaryLoop()) B[-1 - face[h]] = H[h].face().asBoundaryLoop();
      }
    }
    return "";
  }
  // dense packing for the full comparison
  void toHS(HS& s, nav::Handles& hd) const {
    s = HS();
    hd = nav::Handles();
    s.manifold = true;
    std::vector<int> vm(nV, -1), fm(nF, -1), bm(nB, -1), hm(nH(), -1);
    for (int v = 0; v < nV; v++)
      if (vAlive[v]) {
        vm[v] = s.nV++;
        hd.V.push_back(V[v]);
      }
    for (int f = 0; f < nF; f++)
      if (fAlive[f]) {
        fm[f] = s.nF++;
        hd.F.push_back(F[f]);
      }
    for (int b = 0; b < nB; b++)
      if (bAlive[b]) {
        bm[b] = s.nB++;
        hd.B.push_back(B[b]);
      }
    int n = 0;
    for (int h = 0; h < nH(); h++)
      if (alive(h)) hm[h] = n++;
    s.fHe.assign(s.nF, -1);
    std::vector<int> em(nH(), -1);
    for (int h = 0; h < nH(); h++) {
      if (!alive(h)) continue;
      s.tail.push_back(vm[tail[h]]);
      s.tip.push_back(vm[tip(h)]);
      s.next.push_back(hm[next[h]]);
      s.face.push_back(face[h] >= 0 ? fm[face[h]] : -1 - bm[-1 - face[h]]);
      if (face[h] >= 0) s.fHe[fm[face[h]]] = hm[h];
      hd.H.push_back(H[h]);
      if (twin[h] > h || em[twin[h]] < 0) {
        em[h] = s.nE++;
        s.edgeHe.push_back({hm[h]});
        hd.E.push_back(H[h].edge());
      } else {
        em[h] = em[twin[h]];
        s.edgeHe[em[h]].push_back(hm[h]);
      }
      s.edge.push_back(em[h]);
    }
  }
  std::string compare(SurfaceMesh& m, bool meshLevel = true) const {
    HS s;
    nav::Handles hd;
    toHS(s, hd);
    return nav::checkNav(m, s, hd, meshLevel);
  }
  // internal consistency of the reference itself
  std::string sane() const {
    for (int h = 0; h < nH(); h++) {
      if (!alive(h)) continue;
      if (!alive(next[h]) || !alive(twin[h]) || twin[twin[h]] != h || twin[h] == h) return cat("reference broken at ", h);
      if (tail[next[twin[h]]] != tail[h]) return cat("reference tail broken at ", h);
      if (face[next[h]] != face[h]) return cat("reference face broken at ", h);
    }
    return "";
  }
  // canonical encoding of the state (connectivity with real handles)
  uint64_t hash() const {
    uint64_t h = 99;
    std::map<size_t, uint64_t> rows;
    for (int i = 0; i < nH(); i++)
      if (alive(i)) {
        uint64_t r = mc::mix(H[i].getIndex(), H[next[i]].getIndex());
        r = mc::mix(r, V[tail[i]].getIndex());
        r = mc::mix(r, face[i] >= 0 ? F[face[i]].getIndex() : 1000000 + B[-1 - face[i]].getIndex());
        rows[H[i].getIndex()] = r;
      }
    for (auto& kv : rows) h = mc::mix(h, kv.second);
    return h;
  }
  // simplicial complex: triangles, distinct corners, no two edges with the same end points
  bool simplicial() const {
    std::set<std::pair<int, int>> es;
    for (int h = 0; h < nH(); h++) {
      if (!alive(h)) continue;
      if (interior(h) && degree(h) != 3) return false;
      if (tail[h] == tip(h)) return false;
      if (h < twin[h] && !es.insert({std::min(tail[h], tip(h)), std::max(tail[h], tip(h))}).second) return false;
    }
    return true;
  }
};
} // namespace ref
