// Independent finite-element operators on a triangle mesh with given edge lengths: one planar layout per face.
#pragma once
#include "mc.h"
#include "geometrycentral/surface/surface_mesh.h"
#include "geometrycentral/surface/surface_point.h"
#include <Eigen/Dense>
#include <array>
#include <complex>

namespace ops {
using namespace geometrycentral;
using namespace geometrycentral::surface;
typedef std::complex<double> C;
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXcd CMat;
typedef Eigen::VectorXcd CVec;

struct Tri {
  Face f;
  Halfedge h[3]; // halfedge i goes from corner i to corner i+1
  size_t v[3], e[3];
  C q[3]; // planar positions, first side along the real axis, counterclockwise
  double area;
  C grad(int i) const { return C(0, 1) * (q[(i + 2) % 3] - q[(i + 1) % 3]) / (2 * area); } // of the hat function of corner i
  double ang(int i) const { return std::arg((q[(i + 2) % 3] - q[i]) / (q[(i + 1) % 3] - q[i])); }
  C at(Vector3 b) const { return b.x * q[0] + b.y * q[1] + b.z * q[2]; }
};
struct Surf {
  SurfaceMesh& m;
  std::vector<Tri> T;
  std::vector<double> L; // by edge index
  std::vector<double> l; // by element id
  size_t nV = 0, nE = 0;
  std::map<size_t, size_t> vi, ei, fi;
  double mean = 0;
  double skinny = 1e300;
  Surf(SurfaceMesh& m_, const EdgeData<double>& len) : m(m_) {
    for (Vertex v : m.vertices()) vi[v.getIndex()] = nV++;
    for (Edge e : m.edges()) {
      ei[e.getIndex()] = nE++;
      L.push_back(len[e]);
      mean += len[e];
    }
    mean /= nE;
    for (Face f : m.faces()) {
      Tri t;
      t.f = f;
      t.h[0] = f.halfedge();
      t.h[1] = t.h[0].next();
      t.h[2] = t.h[1].next();
      double l[3];
      for (int i = 0; i < 3; i++) {
        t.v[i] = vi[t.h[i].vertex().getIndex()];
        t.e[i] = ei[t.h[i].edge().getIndex()];
        l[i] = L[t.e[i]];
      }
      double x = (l[0] * l[0] + l[2] * l[2] - l[1] * l[1]) / (2 * l[0]);
      t.q[0] = 0;
      t.q[1] = l[0];
      t.q[2] = C(x, std::sqrt(std::max(0., l[2] * l[2] - x * x)));
      t.area = .5 * l[0] * t.q[2].imag();
      skinny = std::min(skinny, t.area / (l[0] * l[0] + l[1] * l[1] + l[2] * l[2]));
      fi[f.getIndex()] = T.size();
      T.push_back(t);
    }
  }
  const Tri& tri(Face f) const { return T[fi.at(f.getIndex())]; }
  size_t idx(Vertex v) const { return vi.at(v.getIndex()); }
  size_t idx(Edge e) const { return ei.at(e.getIndex()); }
  Mat lap() const {
    Mat A = Mat::Zero(nV, nV);
    for (auto& t : T)
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) A(t.v[i], t.v[j]) += t.area * (std::conj(t.grad(i)) * t.grad(j)).real();
    return A;
  }
  Mat mass() const {
    Mat A = Mat::Zero(nV, nV);
    for (auto& t : T)
      for (int i = 0; i < 3; i++) A(t.v[i], t.v[i]) += t.area / 3;
    return A;
  }
  std::vector<double> cotans() const { // half the sum of the cotangents, per edge
    std::vector<double> w(nE, 0.);
    for (auto& t : T)
      for (int i = 0; i < 3; i++) w[t.e[i]] += .5 / std::tan(t.ang((i + 2) % 3));
    return w;
  }
  // unit field of steepest descent of u per face; false if some face has no clear direction
  bool unit(const Vec& u, std::vector<C>& X) const {
    bool ok = true;
    for (auto& t : T) {
      C g = 0;
      double mx = 0;
      for (int i = 0; i < 3; i++) {
        g += u(t.v[i]) * t.grad(i);
        mx = std::max(mx, std::abs(u(t.v[i])) * std::abs(t.grad(i)));
      }
      if (!(std::abs(g) > 1e-5 * mx)) ok = false;
      X.push_back(-g / std::abs(g)); // points away from the heat
    }
    return ok;
  }
  Vec div(const std::vector<C>& X) const { // integrals of grad(hat) . X
    Vec d = Vec::Zero(nV);
    for (size_t k = 0; k < T.size(); k++)
      for (int i = 0; i < 3; i++) d(T[k].v[i]) += T[k].area * (std::conj(T[k].grad(i)) * X[k]).real();
    return d;
  }
  // a face-coordinate form of a point (any face containing it)
  std::pair<Face, Vector3> inFace(const SurfacePoint& p) const {
    if (p.type == SurfacePointType::Face) return {p.face, p.faceCoords};
    for (auto& t : T)
      for (int i = 0; i < 3; i++) {
        Vector3 b = Vector3::zero();
        if (p.type == SurfacePointType::Vertex && t.h[i].vertex() == p.vertex) {
          b[i] = 1;
          return {t.f, b};
        }
        if (p.type == SurfacePointType::Edge && t.h[i].edge() == p.edge) {
          bool same = t.h[i] == p.edge.halfedge() || (t.h[i].vertex() == p.edge.firstVertex() && p.edge.firstVertex() != p.edge.secondVertex());
          b[i] = same ? 1 - p.tEdge : p.tEdge;
          b[(i + 1) % 3] = same ? p.tEdge : 1 - p.tEdge;
          return {t.f, b};
        }
      }
    return {Face(), Vector3::zero()};
  }
  Vec weights(const SurfacePoint& p) const {
    Vec w = Vec::Zero(nV);
    auto q = inFace(p);
    const Tri& t = tri(q.first);
    for (int i = 0; i < 3; i++) w(t.v[i]) += q.second[i];
    return w;
  }
  bool connected() const {
    std::vector<size_t> r(nV);
    for (size_t i = 0; i < nV; i++) r[i] = i;
    std::function<size_t(size_t)> find = [&](size_t x) { return r[x] == x ? x : r[x] = find(r[x]); };
    for (auto& t : T)
      for (int i = 0; i < 3; i++) r[find(t.v[i])] = find(t.v[(i + 1) % 3]);
    for (size_t i = 0; i < nV; i++)
      if (find(i) != find(0)) return false;
    return true;
  }
};
} // namespace ops
