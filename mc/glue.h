// Oriented glued triangles with lengths per side, and their Euclidean and hyperbolic (Ptolemy) flips: independent oracle for
// intrinsic triangulations.
#pragma once
#include "mc.h"
#include <Eigen/Dense>
#include <array>
#include <map>
#include "geometrycentral/surface/surface_mesh.h"
typedef Eigen::MatrixXd Mat;
// oriented glued triangles; side i runs from corner i to corner i+1
struct Glue {
  typedef std::pair<int, int> Side;
  std::vector<std::array<int, 3>> v;
  std::vector<std::array<Side, 3>> tw;
  std::vector<std::array<double, 3>> l;
  int nV = 0;
  double cot(int t, int i) const { // half the cotangent of the angle across side i
    double a = l[t][i], b = l[t][(i + 1) % 3], c = l[t][(i + 2) % 3], s = (a + b + c) / 2, ar = std::sqrt(std::max(0., s * (s - a) * (s - b) * (s - c)));
    return (b * b + c * c - a * a) / (8 * ar);
  }
  double area(int t) const {
    double a = l[t][0], b = l[t][1], c = l[t][2], s = (a + b + c) / 2;
    return std::sqrt(std::max(0., s * (s - a) * (s - b) * (s - c)));
  }
  double weight(int t, int i) const {
    double w = cot(t, i);
    if (tw[t][i].first >= 0) w += cot(tw[t][i].first, tw[t][i].second);
    return w;
  }
  double hyp(int t, int i) const {
    double a = l[t][i], b = l[t][(i + 1) % 3], c = l[t][(i + 2) % 3];
    return -a / (b * c) + b / (c * a) + c / (a * b);
  }
  double score(int t, int i, bool hyperbolic) const {
    if (!hyperbolic) return weight(t, i);
    return hyp(t, i) + hyp(tw[t][i].first, tw[t][i].second);
  }
  bool flip(int t, int i, bool hyperbolic) {
    int s = tw[t][i].first, j = tw[t][i].second;
    if (s < 0 || s == t) return false;
    int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
    int a = v[t][i], b = v[t][i1], c = v[t][i2], d = v[s][j2];
    double e = l[t][i], bc = l[t][i1], ca = l[t][i2], ad = l[s][j1], db = l[s][j2], n;
    if (hyperbolic) n = (bc * ad + ca * db) / e;
    else {
      double x1 = (ca * ca + e * e - bc * bc) / (2 * e), y1 = std::sqrt(std::max(0., ca * ca - x1 * x1));
      double x2 = (ad * ad + e * e - db * db) / (2 * e), y2 = -std::sqrt(std::max(0., ad * ad - x2 * x2));
      n = std::hypot(x1 - x2, y1 - y2);
    }
    std::map<Side, Side> to = {{{s, j1}, {t, 0}}, {{t, i2}, {t, 2}}, {{s, j2}, {s, 0}}, {{t, i1}, {s, 1}}};
    std::map<Side, Side> tws;
    for (auto& x : to) tws[x.second] = tw[x.first.first][x.first.second];
    v[t] = {a, d, c};
    l[t] = {ad, n, ca};
    v[s] = {d, b, c};
    l[s] = {db, bc, n};
    tw[t][1] = {s, 2};
    tw[s][2] = {t, 1};
    for (auto& x : tws) {
      Side o = x.second;
      if (to.count(o)) o = to[o];
      tw[x.first.first][x.first.second] = o;
      if (o.first >= 0) tw[o.first][o.second] = x.first;
    }
    return true;
  }
  bool delaunay(bool hyperbolic = false) {
    for (int it = 0; it < 20000; it++) {
      bool any = false;
      for (size_t t = 0; t < v.size() && !any; t++)
        for (int i = 0; i < 3 && !any; i++)
          if (tw[t][i].first >= 0 && tw[t][i].first != (int)t && score(t, i, hyperbolic) < -1e-9 && flip(t, i, hyperbolic)) any = true;
      if (!any) return true;
    }
    return false;
  }
  double skinny() const {
    double r = 1e300;
    for (size_t t = 0; t < v.size(); t++) r = std::min(r, area(t) / (l[t][0] * l[t][0] + l[t][1] * l[t][1] + l[t][2] * l[t][2]));
    return r;
  }
  double slack() const { // how far from a triangulation with other flips (hyperbolic)
    double r = 1e300;
    for (size_t t = 0; t < v.size(); t++)
      for (int i = 0; i < 3; i++)
        if (tw[t][i].first >= 0 && tw[t][i].first != (int)t) r = std::min(r, std::abs(score(t, i, true)));
    return r;
  }
  Mat lap() const {
    Mat A = Mat::Zero(nV, nV);
    for (size_t t = 0; t < v.size(); t++)
      for (int i = 0; i < 3; i++) {
        double w = cot(t, i);
        int a = v[t][i], b = v[t][(i + 1) % 3];
        A(a, b) -= w;
        A(b, a) -= w;
        A(a, a) += w;
        A(b, b) += w;
      }
    return A;
  }
  Mat mass() const {
    Mat A = Mat::Zero(nV, nV);
    for (size_t t = 0; t < v.size(); t++)
      for (int i = 0; i < 3; i++) A(v[t][i], v[t][i]) += area(t) / 3;
    return A;
  }
  std::vector<std::array<double, 3>> lengths() const {
    std::vector<std::array<double, 3>> r;
    for (size_t t = 0; t < v.size(); t++)
      for (int i = 0; i < 3; i++) {
        double a = v[t][i], b = v[t][(i + 1) % 3];
        r.push_back({std::min(a, b), std::max(a, b), l[t][i]});
      }
    std::sort(r.begin(), r.end());
    return r;
  }
};
using namespace geometrycentral;
using namespace geometrycentral::surface;
inline std::vector<std::array<Halfedge, 3>> tris(SurfaceMesh& m) {
  std::vector<std::array<Halfedge, 3>> r;
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge();
    r.push_back({h, h.next(), h.next().next()});
  }
  return r;
}
inline Glue glueOf(SurfaceMesh& m, const EdgeData<double>& len0, std::map<size_t, int>& vi) {
  Glue g;
  for (Vertex v : m.vertices()) vi[v.getIndex()] = g.nV++;
  auto T = tris(m);
  std::map<size_t, Glue::Side> at;
  for (size_t t = 0; t < T.size(); t++)
    for (int i = 0; i < 3; i++) at[T[t][i].getIndex()] = {(int)t, i};
  for (size_t t = 0; t < T.size(); t++) {
    g.v.push_back({vi[T[t][0].vertex().getIndex()], vi[T[t][1].vertex().getIndex()], vi[T[t][2].vertex().getIndex()]});
    std::array<double, 3> l;
    std::array<Glue::Side, 3> w;
    for (int i = 0; i < 3; i++) {
      l[i] = len0[T[t][i].edge()];
      Halfedge o = T[t][i].sibling();
      w[i] = o != T[t][i] && at.count(o.getIndex()) ? at[o.getIndex()] : Glue::Side{-1, -1};
    }
    g.l.push_back(l);
    g.tw.push_back(w);
  }
  return g;
}
