// C08: every geometric quantity against an independent brute-force reference, on exhaustively enumerated small
// surfaces: all placements of the vertices on small integer point sets, all edge lengths from a small set.
#include "geo.h"
#include <complex>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace mc;
using geo::Pts;
using gen::Polys;
using cd = std::complex<double>;
using DM = Eigen::MatrixXd;
using CM = Eigen::MatrixXcd;

struct Ck {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& q, const std::string& m) {
    if (seen.insert(q).second) ctx.fail(q + "|" + id, q + " " + m + " on " + id);
  }
  void eq(const std::string& q, double got, double want, const std::string& where = "", double tol = 1e-8) {
    if (!closeRel(got, want, tol)) bad(q, cat("is ", got, " expected ", want, " ", where));
  }
  void eq(const std::string& q, Vector2 g, Vector2 w, const std::string& where = "", double tol = 1e-8) {
    eq(q, g.x, w.x, where, tol);
    eq(q, g.y, w.y, where, tol);
  }
  void eq(const std::string& q, Vector3 g, Vector3 w, const std::string& where = "", double tol = 1e-8) {
    for (int i = 0; i < 3; i++) eq(q, g[i], w[i], where, tol);
  }
  void ok(const std::string& q, bool b, const std::string& m) {
    if (!b) bad(q, m);
  }
  template <class M>
  void mat(const std::string& q, const M& g, const M& w, double tol = 1e-8) {
    if (g.rows() != w.rows() || g.cols() != w.cols()) {
      bad(q, cat("has size ", g.rows(), "x", g.cols(), " expected ", w.rows(), "x", w.cols()));
      return;
    }
    for (Eigen::Index i = 0; i < g.rows(); i++)
      for (Eigen::Index j = 0; j < g.cols(); j++)
        if (!(std::abs(g(i, j) - w(i, j)) <= tol * (1 + std::abs(w(i, j))))) {
          bad(q, cat("entry ", i, ",", j, " is ", g(i, j), " expected ", w(i, j)));
          return;
        }
  }
};

static double minEig(const DM& m) { return Eigen::SelfAdjointEigenSolver<DM>(m, Eigen::EigenvaluesOnly).eigenvalues()(0); }
static double minEigC(const CM& m) { return Eigen::SelfAdjointEigenSolver<CM>(m, Eigen::EigenvaluesOnly).eigenvalues()(0); }

// reference values of everything intrinsic, from edge lengths only
struct Intr {
  std::vector<double> L;
  std::vector<double> area, ang, cot; // face; corner & opposite-cot per halfedge index (corner at tail of he; cot opposite he)
  std::vector<double> angSum, dual;
};

static void intrinsic(Ck& k, IntrinsicGeometryInterface& g, SurfaceMesh& m, const std::vector<double>& L, bool manifold, bool flatTest = false) {
  size_t nV = m.nVertices(), nE = m.nEdges(), nF = m.nFaces();
  auto vi = m.getVertexIndices();
  auto ei = m.getEdgeIndices();
  auto fi = m.getFaceIndices();
  std::vector<double> area(nF);
  HalfedgeData<double> ang(m, 0.), ocot(m, 0.);
  std::vector<double> angSum(nV, 0), dual(nV, 0);
  double total = 0, lsum = 0;
  DM K = DM::Zero(nV, nV), MG = DM::Zero(nV, nV), KC = DM::Zero(nE, nE), MC = DM::Zero(nE, nE);
  for (Face f : m.faces()) {
    Halfedge h[3];
    h[0] = f.halfedge();
    h[1] = h[0].next();
    h[2] = h[1].next();
    double l[3];
    for (int i = 0; i < 3; i++) l[i] = L[ei[h[i].edge()]];
    long double a = l[0], b = l[1], c = l[2];
    long double sq = (a + b + c) * (-a + b + c) * (a - b + c) * (a + b - c);
    double A = (double)(std::sqrt(std::max(sq, (long double)0)) / 4);
    area[fi[f]] = A;
    total += A;
    for (int i = 0; i < 3; i++) {
      // corner at tail of h[i]: between h[i] and h[i-1], opposite side h[i+1]
      double u = l[i], v = l[(i + 2) % 3], o = l[(i + 1) % 3];
      double dotp = (u * u + v * v - o * o) / 2;
      double t = std::atan2(2 * A, dotp);
      ang[h[i]] = t;
      angSum[vi[h[i].vertex()]] += t;
      dual[vi[h[i].vertex()]] += A / 3;
      ocot[h[(i + 1) % 3]] = dotp / (2 * A) / 2; // half cotan, opposite side
    }
    for (int i = 0; i < 3; i++) {
      size_t p = vi[h[i].vertex()];
      for (int j = 0; j < 3; j++) {
        size_t q = vi[h[j].vertex()];
        // opposite side of corner i is h[(i+1)%3]
        double li = l[(i + 1) % 3], lj = l[(j + 1) % 3];
        double ee;
        if (i == j) ee = li * li;
        else {
          int r = 3 - i - j;
          double lr = l[(r + 1) % 3];
          ee = (lr * lr - li * li - lj * lj) / 2;
        }
        double kij = ee / (4 * A);
        K(p, q) += kij;
        KC(ei[h[(i + 1) % 3].edge()], ei[h[(j + 1) % 3].edge()]) += 4 * kij;
        MG(p, q) += i == j ? A / 6 : A / 12;
      }
      MC(ei[h[i].edge()], ei[h[i].edge()]) += A / 3;
    }
  }
  for (double x : L) lsum += x;

  g.requireEdgeLengths();
  g.requireFaceAreas();
  g.requireVertexDualAreas();
  g.requireCornerAngles();
  g.requireVertexAngleSums();
  g.requireHalfedgeCotanWeights();
  g.requireEdgeCotanWeights();
  g.requireShapeLengthScale();
  g.requireMeshLengthScale();
  g.requireCotanLaplacian();
  g.requireVertexLumpedMassMatrix();
  g.requireVertexGalerkinMassMatrix();
  g.requireFaceGalerkinMassMatrix();
  g.requireCrouzeixRaviartLaplacian();
  g.requireCrouzeixRaviartMassMatrix();
  g.requireDECOperators();
  for (Edge e : m.edges()) k.eq("edgeLengths", g.edgeLengths[e], L[ei[e]]);
  for (Face f : m.faces()) k.eq("faceAreas", g.faceAreas[f], area[fi[f]]);
  double dsum = 0;
  for (Vertex v : m.vertices()) {
    k.eq("vertexDualAreas", g.vertexDualAreas[v], dual[vi[v]]);
    k.eq("vertexAngleSums", g.vertexAngleSums[v], angSum[vi[v]]);
    dsum += g.vertexDualAreas[v];
  }
  k.eq("sum of vertexDualAreas", dsum, total);
  for (Corner c : m.corners()) k.eq("cornerAngles", g.cornerAngles[c], ang[c.halfedge()], "", 1e-7);
  for (Halfedge h : m.interiorHalfedges()) k.eq("halfedgeCotanWeights", g.halfedgeCotanWeights[h], ocot[h]);
  for (Halfedge h : m.exteriorHalfedges()) k.eq("halfedgeCotanWeights", g.halfedgeCotanWeights[h], 0., "exterior");
  std::vector<double> ecot(nE, 0);
  for (Halfedge h : m.interiorHalfedges()) ecot[ei[h.edge()]] += ocot[h];
  for (Edge e : m.edges()) k.eq("edgeCotanWeights", g.edgeCotanWeights[e], ecot[ei[e]]);
  k.eq("shapeLengthScale", g.shapeLengthScale, std::sqrt(total));
  k.eq("meshLengthScale", g.meshLengthScale, lsum / nE);
  DM CL = geo::dense(g.cotanLaplacian);
  k.mat("cotanLaplacian", CL, K);
  k.mat("cotanLaplacian symmetry", CL, DM(CL.transpose()), 1e-12);
  k.ok("cotanLaplacian row sums", (CL * Eigen::VectorXd::Ones(nV)).cwiseAbs().maxCoeff() < 1e-8 * (1 + CL.cwiseAbs().maxCoeff()), "are not zero");
  k.ok("cotanLaplacian positivity", minEig(CL) > -1e-8 * (1 + CL.cwiseAbs().maxCoeff()), "fails");
  DM lump = DM::Zero(nV, nV), fm = DM::Zero(nF, nF);
  for (size_t i = 0; i < nV; i++) lump(i, i) = dual[i];
  for (size_t i = 0; i < nF; i++) fm(i, i) = area[i];
  k.mat("vertexLumpedMassMatrix", geo::dense(g.vertexLumpedMassMatrix), lump);
  k.mat("vertexGalerkinMassMatrix", geo::dense(g.vertexGalerkinMassMatrix), MG);
  k.mat("faceGalerkinMassMatrix", geo::dense(g.faceGalerkinMassMatrix), fm);
  k.mat("crouzeixRaviartLaplacian", geo::dense(g.crouzeixRaviartLaplacian), KC);
  k.mat("crouzeixRaviartMassMatrix", geo::dense(g.crouzeixRaviartMassMatrix), MC);
  // DEC
  DM d0 = geo::dense(g.d0), d1 = geo::dense(g.d1), h0 = geo::dense(g.hodge0), h1 = geo::dense(g.hodge1), h2 = geo::dense(g.hodge2);
  k.ok("d0 size", d0.rows() == (int)nE && d0.cols() == (int)nV, "");
  k.ok("d1 size", d1.rows() == (int)nF && d1.cols() == (int)nE, "");
  {
    DM D0 = DM::Zero(nE, nV), D1 = DM::Zero(nF, nE), H1 = DM::Zero(nE, nE), H2 = DM::Zero(nF, nF);
    for (Edge e : m.edges()) {
      D0(ei[e], vi[e.halfedge().tipVertex()]) += 1;
      D0(ei[e], vi[e.halfedge().tailVertex()]) -= 1;
      H1(ei[e], ei[e]) = ecot[ei[e]];
    }
    for (Face f : m.faces()) {
      H2(fi[f], fi[f]) = 1 / area[fi[f]];
      for (Halfedge h : f.adjacentHalfedges()) D1(fi[f], ei[h.edge()]) += h.orientation() == h.edge().halfedge().orientation() ? 1 : -1;
    }
    k.mat("d0", d0, D0);
    k.mat("d1", d1, D1);
    k.mat("d1*d0", DM(d1 * d0), DM(DM::Zero(nF, nV)));
    k.mat("hodge0", h0, lump);
    k.mat("hodge1", h1, H1);
    k.mat("hodge2", h2, H2);
    k.mat("d0' hodge1 d0", DM(d0.transpose() * h1 * d0), K);
    auto inv = [&](const char* q, const DM& a, const DM& b) {
      for (Eigen::Index i = 0; i < a.rows(); i++)
        for (Eigen::Index j = 0; j < a.cols(); j++)
          if (i == j) {
            if (std::abs(a(i, i)) > 1e-6) k.eq(q, a(i, i) * b(i, i), 1.);
          } else
            k.ok(q, b(i, j) == 0, "not diagonal");
    };
    inv("hodge0Inverse", h0, geo::dense(g.hodge0Inverse));
    inv("hodge1Inverse", h1, geo::dense(g.hodge1Inverse));
    inv("hodge2Inverse", h2, geo::dense(g.hodge2Inverse));
  }
  if (!manifold) return;

  // ---- manifold-only
  g.requireCornerScaledAngles();
  g.requireVertexGaussianCurvatures();
  g.requireFaceGaussianCurvatures();
  g.requireHalfedgeVectorsInFace();
  g.requireHalfedgeVectorsInVertex();
  g.requireTransportVectorsAcrossHalfedge();
  g.requireTransportVectorsAlongHalfedge();
  g.requireVertexConnectionLaplacian();
  g.requireFaceConnectionLaplacian();
  g.requireCrouzeixRaviartConnectionLaplacian();
  bool bnd = m.hasBoundary();
  double gsum = 0, fsum = 0;
  std::vector<double> factor(nV);
  for (Vertex v : m.vertices()) {
    double s = angSum[vi[v]];
    if (v.isBoundary()) {
      // documentation and code differ about rescaling at the boundary; both readings are proportional
      Halfedge h = v.halfedge();
      double r = g.cornerScaledAngles[h.corner()] / ang[h];
      k.ok("cornerScaledAngles", closeRel(r * s, PI, 1e-7) || closeRel(r, 1., 1e-7), cat("at a boundary vertex sum to ", r * s));
      factor[vi[v]] = r;
    } else
      factor[vi[v]] = 2 * PI / s;
    double G = v.isBoundary() ? 0. : 2 * PI - s;
    if (!v.isBoundary()) k.eq("vertexGaussianCurvatures", g.vertexGaussianCurvatures[v], G, "", 1e-7);
    else
      k.ok("vertexGaussianCurvatures", closeRel(g.vertexGaussianCurvatures[v], 0, 1e-9) || closeRel(g.vertexGaussianCurvatures[v], PI - s, 1e-7), "at a boundary vertex");
    gsum += g.vertexGaussianCurvatures[v];
  }
  for (Corner c : m.corners()) k.eq("cornerScaledAngles", g.cornerScaledAngles[c], ang[c.halfedge()] * factor[vi[c.vertex()]], "", 1e-7);
  for (Face f : m.faces()) {
    double s = -PI;
    for (Corner c : f.adjacentCorners()) s += ang[c.halfedge()] * factor[vi[c.vertex()]];
    k.eq("faceGaussianCurvatures", g.faceGaussianCurvatures[f], s, "", 1e-7);
    fsum += g.faceGaussianCurvatures[f];
  }
  int chi = (int)nV - (int)nE + (int)nF;
  if (!bnd) {
    k.eq("Gauss-Bonnet (vertices)", gsum, 2 * PI * chi, "", 1e-7);
    k.eq("Gauss-Bonnet (faces)", fsum, 2 * PI * chi, "", 1e-7);
  }
  // face tangent spaces
  HalfedgeData<Vector2> hv(m);
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge();
    double th = 0;
    for (int i = 0; i < 3; i++) {
      hv[h] = Vector2{L[ei[h.edge()]] * std::cos(th), L[ei[h.edge()]] * std::sin(th)};
      th += PI - ang[h.next()];
      h = h.next();
    }
  }
  for (Halfedge h : m.interiorHalfedges()) k.eq("halfedgeVectorsInFace", g.halfedgeVectorsInFace[h], hv[h], "", 1e-6);
  for (Halfedge h : m.interiorHalfedges()) {
    if (h.edge().isBoundary()) {
      k.ok("transportVectorsAcrossHalfedge", std::isnan(g.transportVectorsAcrossHalfedge[h].x), "on the boundary is not NaN");
      continue;
    }
    Vector2 r = (-hv[h.twin()] / hv[h]).normalize();
    k.eq("transportVectorsAcrossHalfedge", g.transportVectorsAcrossHalfedge[h], r, "", 1e-6);
  }
  // vertex tangent spaces
  HalfedgeData<Vector2> vv(m);
  HalfedgeData<char> have(m, 0);
  for (Vertex v : m.vertices()) {
    Halfedge h = v.halfedge();
    double th = 0;
    do {
      vv[h] = Vector2{std::cos(th), std::sin(th)} * L[ei[h.edge()]];
      have[h] = 1;
      if (!h.isInterior()) break;
      th += ang[h] * factor[vi[v]];
      h = h.next().next().twin();
    } while (h != v.halfedge());
  }
  for (Halfedge h : m.halfedges()) {
    if (!have[h]) k.bad("halfedgeVectorsInVertex", "reference orbit incomplete");
    k.eq("halfedgeVectorsInVertex", g.halfedgeVectorsInVertex[h], vv[h], "", 1e-6);
    k.eq("transportVectorsAlongHalfedge", g.transportVectorsAlongHalfedge[h], (-vv[h.twin()] / vv[h]).normalize(), "", 1e-6);
  }
  CM VC = CM::Zero(nV, nV), FC = CM::Zero(nF, nF), CC = CM::Zero(nE, nE);
  for (Halfedge h : m.halfedges()) {
    size_t i = vi[h.tailVertex()], j = vi[h.tipVertex()];
    VC(i, i) += ecot[ei[h.edge()]];
    Vector2 r = (vv[h] / (-vv[h.twin()])).normalize(); // tip -> tail
    VC(i, j) -= ecot[ei[h.edge()]] * cd(r.x, r.y);
  }
  for (Halfedge h : m.interiorHalfedges()) {
    if (h.edge().isBoundary()) continue;
    size_t i = fi[h.face()], j = fi[h.twin().face()];
    Vector2 r = (-hv[h] / hv[h.twin()]).normalize(); // neighbor -> here
    FC(i, i) += 1;
    FC(i, j) -= cd(r.x, r.y);
  }
  for (Face f : m.faces()) {
    Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        auto dir = [&](Halfedge x) {
          Vector2 d = hv[x].normalize();
          if (x != x.edge().halfedge()) d = -d;
          return cd(d.x, d.y);
        };
        double ee = i == j ? std::norm(cd(hv[h[i]].x, hv[h[i]].y)) : dot(hv[h[i]], hv[h[j]]);
        double kij = 4 * ee / (4 * area[fi[f]]);
        CC(ei[h[i].edge()], ei[h[j].edge()]) += std::conj(dir(h[i])) * kij * dir(h[j]);
      }
  }
  CM gV = geo::dense(g.vertexConnectionLaplacian), gF = geo::dense(g.faceConnectionLaplacian), gC = geo::dense(g.crouzeixRaviartConnectionLaplacian);
  k.mat("vertexConnectionLaplacian", gV, VC, 1e-6);
  k.mat("vertexConnectionLaplacian adjoint", gV, CM(gV.adjoint()), 1e-9);
  k.mat("faceConnectionLaplacian", gF, FC, 1e-6);
  k.mat("faceConnectionLaplacian adjoint", gF, CM(gF.adjoint()), 1e-9);
  k.mat("crouzeixRaviartConnectionLaplacian", gC, CC, 1e-6);
  k.mat("crouzeixRaviartConnectionLaplacian adjoint", gC, CM(gC.adjoint()), 1e-9);
  k.ok("faceConnectionLaplacian positivity", minEigC(gF) > -1e-8 * (1 + gF.cwiseAbs().maxCoeff()), "fails");
  k.ok("crouzeixRaviartConnectionLaplacian positivity", minEigC(gC) > -1e-8 * (1 + gC.cwiseAbs().maxCoeff()), "fails");
  bool delaunay = true;
  for (double c : ecot) delaunay = delaunay && c > -1e-10;
  if (delaunay) k.ok("vertexConnectionLaplacian positivity", minEigC(gV) > -1e-8 * (1 + gV.cwiseAbs().maxCoeff()), "fails on a Delaunay surface");
  k.ctx.outcome(bnd ? "with boundary" : "closed");
}

static Vector3 refNormal(Face f, const VertexData<Vector3>& p, double* area = nullptr) {
  std::vector<Vector3> q;
  for (Vertex v : f.adjacentVertices()) q.push_back(p[v]);
  Vector3 a{0, 0, 0};
  for (size_t i = 1; i + 1 < q.size(); i++) a += cross(q[i] - q[0], q[i + 1] - q[0]);
  if (area) *area = norm(a) / 2;
  return a / norm(a);
}

static void extrinsic(Ck& k, VertexPositionGeometry& g, SurfaceMesh& m, bool manifold) {
  auto vi = m.getVertexIndices();
  auto& p = g.inputVertexPositions;
  g.requireFaceNormals();
  g.requireVertexNormals();
  g.requireCornerAngles();
  g.requireFaceTangentBasis();
  g.requireVertexPositions();
  g.requireEdgeDihedralAngles();
  g.requireVertexMeanCurvatures();
  g.requireVertexDualMeanCurvatureNormals();
  FaceData<Vector3> N(m);
  FaceData<double> A(m);
  for (Face f : m.faces()) {
    N[f] = refNormal(f, p, &A[f]);
    k.eq("faceNormals", g.faceNormals[f], N[f]);
    k.eq("faceNormal()", g.faceNormal(f), N[f]);
    k.eq("faceArea()", g.faceArea(f), A[f]);
  }
  VertexData<Vector3> vn(m, Vector3{0, 0, 0}), mcn(m, Vector3{0, 0, 0});
  for (Face f : m.faces()) {
    Halfedge h = f.halfedge();
    for (int i = 0; i < 3; i++) {
      Vector3 a = p[h.vertex()], b = p[h.next().vertex()], c = p[h.next().next().vertex()];
      double t = std::atan2(norm(cross(b - a, c - a)), dot(b - a, c - a));
      vn[h.vertex()] += t * N[f];
      // cot of the angle opposite h (at c)
      double ct = dot(a - c, b - c) / norm(cross(a - c, b - c)) / 2;
      mcn[h.vertex()] += ct * (a - b) / 2;
      mcn[h.next().vertex()] += ct * (b - a) / 2;
      k.eq("halfedgeCotanWeight()", g.halfedgeCotanWeight(h), ct);
      k.eq("cornerAngle()", g.cornerAngle(h.corner()), t, "", 1e-7);
      k.eq("halfedgeVector()", g.halfedgeVector(h), b - a);
      h = h.next();
    }
  }
  for (Vertex v : m.vertices()) {
    k.eq("vertexPositions", g.vertexPositions[v], p[v]);
    if (norm(vn[v]) > 1e-4) k.eq("vertexNormals", g.vertexNormals[v], vn[v].normalize(), "", 1e-6);
    k.eq("vertexDualMeanCurvatureNormals", g.vertexDualMeanCurvatureNormals[v], mcn[v]);
    k.eq("vertexDualMeanCurvatureNormal()", g.vertexDualMeanCurvatureNormal(v), mcn[v]);
  }
  auto basis = [&](const std::string& q, const std::array<Vector3, 2>& b, Vector3 n) {
    k.ok(q, closeRel(norm(b[0]), 1, 1e-7) && closeRel(norm(b[1]), 1, 1e-7) && std::abs(dot(b[0], b[1])) < 1e-7 && std::abs(dot(b[0], n)) < 1e-7 &&
                norm(cross(b[0], b[1]) - n) < 1e-6,
         "is not a right-handed orthonormal frame of the tangent plane");
  };
  for (Face f : m.faces()) basis("faceTangentBasis", g.faceTangentBasis[f], N[f]);
  // dihedral angles and what follows from them
  EdgeData<double> th(m, 0.);
  for (Edge e : m.edges()) {
    int nf = 0;
    for (Face f : e.adjacentFaces()) nf++, (void)f;
    if (nf != 2) {
      if (nf == 1) k.eq("edgeDihedralAngles", g.edgeDihedralAngles[e], 0, "boundary edge");
      continue;
    }
    Halfedge h = e.halfedge(), o = h.sibling();
    if (h.orientation() == o.orientation()) continue;
    Vector3 n1 = N[h.face()], n2 = N[o.face()];
    double c = std::max(-1., std::min(1., dot(n1, n2)));
    double mag = std::atan2(norm(cross(n1, n2)), c);
    Vector3 opp = p[o.next().next().vertex()] - p[o.vertex()];
    double s = dot(n1, opp) < 0 ? 1 : -1; // the other face bends away from the normal: convex, positive
    th[e] = s * mag;
    double got = g.edgeDihedralAngles[e], im = g.edgeDihedralAngle(e);
    if (mag > PI - 1e-7) {
      k.eq("edgeDihedralAngles", std::abs(got), mag, "", 1e-7);
      k.eq("edgeDihedralAngle()", std::abs(im), mag, "", 1e-7);
      th[e] = got;
    } else {
      k.eq("edgeDihedralAngles", got, th[e], "", 1e-7);
      k.eq("edgeDihedralAngle()", im, th[e], "", 1e-7);
    }
  }
  if (!manifold) return;
  g.requireVertexTangentBasis();
  g.requireVertexMinPrincipalCurvatures();
  g.requireVertexMaxPrincipalCurvatures();
  g.requireVertexPrincipalCurvatureDirections();
  g.requireFacePrincipalCurvatureDirections();
  g.requireHalfedgeVectorsInVertex();
  g.requireHalfedgeVectorsInFace();
  g.requireVertexGaussianCurvatures();
  g.requireVertexDualAreas();
  g.requireEdgeCotanWeights();
  g.requireEdgeLengths();
  for (Face f : m.faces()) // the x axis is the first halfedge
    k.eq("faceTangentBasis", g.faceTangentBasis[f][0], (p[f.halfedge().tipVertex()] - p[f.halfedge().tailVertex()]).normalize(), "", 1e-7);
  for (Vertex v : m.vertices()) {
    if (norm(vn[v]) > 1e-4) {
      Vector3 n = vn[v].normalize();
      Vector3 sum{0, 0, 0};
      bool flatv = true;
      for (Halfedge h : v.outgoingHalfedges()) {
        Vector3 e = p[h.tipVertex()] - p[v];
        e -= n * dot(e, n);
        double a = -std::atan2(g.halfedgeVectorsInVertex[h].y, g.halfedgeVectorsInVertex[h].x);
        sum += e * std::cos(a) + cross(n, e) * std::sin(a);
      }
      for (Face f : v.adjacentFaces()) flatv = flatv && norm(N[f] - n) < 1e-9;
      if (norm(sum) > 1e-4) {
        basis("vertexTangentBasis", g.vertexTangentBasis[v], n);
        if (flatv && !v.isBoundary()) // flat: halfedge vectors are exact coordinates in the basis
          for (Halfedge h : v.outgoingHalfedges()) {
            Vector2 c = g.halfedgeVectorsInVertex[h];
            k.eq("vertexTangentBasis (flat vertex)", g.vertexTangentBasis[v][0] * c.x + g.vertexTangentBasis[v][1] * c.y, p[h.tipVertex()] - p[v], "", 1e-6);
          }
      }
    }
    double H = 0;
    Vector2 dir{0, 0};
    for (Halfedge h : v.outgoingHalfedges()) {
      double l = norm(p[h.tipVertex()] - p[h.tailVertex()]);
      H += th[h.edge()] * l / 4;
      Vector2 u = g.halfedgeVectorsInVertex[h];
      dir += -u * u / l * th[h.edge()] / 4;
    }
    k.eq("vertexMeanCurvatures", g.vertexMeanCurvatures[v], H, "", 1e-7);
    k.eq("vertexMeanCurvature()", g.vertexMeanCurvature(v), H, "", 1e-7);
    k.eq("vertexGaussianCurvature()", g.vertexGaussianCurvature(v), g.vertexGaussianCurvatures[v], "", 1e-7);
    k.eq("vertexDualArea()", g.vertexDualArea(v), g.vertexDualAreas[v]);
    double ar = g.vertexDualAreas[v], h = H / ar, K = g.vertexGaussianCurvatures[v] / ar;
    double c = std::sqrt(std::max(0., h * h - K));
    k.eq("vertexMinPrincipalCurvatures", g.vertexMinPrincipalCurvatures[v], h - c, "", 1e-5);
    k.eq("vertexMaxPrincipalCurvatures", g.vertexMaxPrincipalCurvatures[v], h + c, "", 1e-5);
    k.eq("vertexMinPrincipalCurvature()", g.vertexMinPrincipalCurvature(v), h - c, "", 1e-5);
    k.eq("vertexMaxPrincipalCurvature()", g.vertexMaxPrincipalCurvature(v), h + c, "", 1e-5);
    k.eq("vertexPrincipalCurvatureDirections", g.vertexPrincipalCurvatureDirections[v], dir, "", 1e-6);
  }
  for (Face f : m.faces()) {
    Vector2 dir{0, 0};
    for (Halfedge h : f.adjacentHalfedges()) {
      Vector2 u = g.halfedgeVectorsInFace[h];
      dir += -u * u / norm(u) * th[h.edge()] / 4;
    }
    k.eq("facePrincipalCurvatureDirections", g.facePrincipalCurvatureDirections[f], dir, "", 1e-6);
  }
  for (Edge e : m.edges()) {
    k.eq("edgeLength()", g.edgeLength(e), g.edgeLengths[e]);
    k.eq("edgeCotanWeight()", g.edgeCotanWeight(e), g.edgeCotanWeights[e]);
  }
}

// operators for polygon meshes. planar: all faces lie in one plane with the same normal
static void polygon(Ck& k, VertexPositionGeometry& g, SurfaceMesh& m, bool tri, bool manifold, bool connection) {
  size_t nV = m.nVertices(), nF = m.nFaces();
  auto vi = m.getVertexIndices();
  auto fi = m.getFaceIndices();
  auto hi = m.getHalfedgeIndices();
  auto& p = g.inputVertexPositions;
  FaceData<double> A(m);
  FaceData<Vector3> N(m);
  bool planar = true, flatFaces = true;
  double total = 0;
  for (Face f : m.faces()) {
    N[f] = refNormal(f, p, &A[f]);
    total += A[f];
    planar = planar && norm(N[f] - N[m.face(0)]) < 1e-9;
    for (Vertex v : f.adjacentVertices()) flatFaces = flatFaces && std::abs(dot(N[f], p[v] - p[f.halfedge().vertex()])) < 1e-9;
    planar = planar && flatFaces;
  }
  g.requireFaceAreas();
  g.requireFaceNormals();
  g.requirePolygonLaplacian();
  g.requirePolygonGradientMatrix();
  g.requirePolygonDivergenceMatrix();
  g.requirePolygonVertexLumpedMassMatrix();
  g.requirePolygonDECOperators();
  g.requireSimplePolygonLaplacian();
  g.requireSimplePolygonVertexGalerkinMassMatrix();
  g.requireSimplePolygonVertexLumpedMassMatrix();
  for (Face f : m.faces()) {
    k.eq("faceAreas (polygon)", g.faceAreas[f], A[f]);
    k.eq("faceNormals (polygon)", g.faceNormals[f], N[f]);
    k.eq("faceNormal() (polygon)", g.faceNormal(f), N[f]);
  }
  Eigen::VectorXd one = Eigen::VectorXd::Ones(nV);
  DM P(nV, 3);
  for (Vertex v : m.vertices())
    for (int c = 0; c < 3; c++) P(vi[v], c) = p[v][c];
  bool convex = flatFaces; // virtual fans then tile the face
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      Vector3 a = p[h.vertex()], b = p[h.next().vertex()], c = p[h.next().next().vertex()];
      convex = convex && dot(cross(b - a, c - b), N[f]) > 1e-9;
    }
  auto laplace = [&](const std::string& q, const DM& L) {
    double sc = 1 + L.cwiseAbs().maxCoeff();
    k.ok(q, L.rows() == (int)nV && L.cols() == (int)nV, "size");
    k.mat(q + " symmetry", L, DM(L.transpose()), 1e-9 * sc);
    k.ok(q + " constants", (L * one).cwiseAbs().maxCoeff() < 1e-7 * sc, "are not in the kernel");
    k.ok(q + " positivity", minEig((L + L.transpose()) / 2) > -1e-7 * sc, cat("fails: ", minEig((L + L.transpose()) / 2)));
    if (planar) {
      // linear functions: zero at interior vertices, energy = |grad|^2 area
      DM LP = L * P;
      for (Vertex v : m.vertices())
        if (!v.isBoundary())
          for (int c = 0; c < 3; c++) k.ok(q + " linear precision", std::abs(LP(vi[v], c)) < 1e-6 * sc, cat("fails: ", LP(vi[v], c)));
      double E = (P.transpose() * LP).trace();
      if (convex || q[0] == 'p') k.eq(q + " energy of linear functions", E, 2 * total, "", 1e-6);
    }
  };
  DM L = geo::dense(g.polygonLaplacian), S = geo::dense(g.simplePolygonLaplacian);
  laplace("polygonLaplacian", L);
  laplace("simplePolygonLaplacian", S);
  if (tri) {
    g.requireCotanLaplacian();
    DM C = geo::dense(g.cotanLaplacian);
    k.mat("polygonLaplacian on triangles", L, C, 1e-6);
    k.mat("simplePolygonLaplacian on triangles", S, C, 1e-6);
  }
  DM G = geo::dense(g.polygonGradientMatrix), D = geo::dense(g.polygonDivergenceMatrix);
  k.ok("polygonGradientMatrix", G.rows() == (int)(3 * nF) && G.cols() == (int)nV, "size");
  DM M3 = DM::Zero(3 * nF, 3 * nF);
  for (Face f : m.faces())
    for (int c = 0; c < 3; c++) M3(3 * fi[f] + c, 3 * fi[f] + c) = A[f];
  k.mat("polygonDivergenceMatrix = G' M", D, DM(G.transpose() * M3));
  k.ok("polygonGradientMatrix constants", (G * one).cwiseAbs().maxCoeff() < 1e-8, "have a gradient");
  // gradient of a linear function is the projected constant, face by face, on flat faces
  DM GP = G * P;
  for (Face f : m.faces()) {
    bool fl = true;
    for (Vertex v : f.adjacentVertices()) fl = fl && std::abs(dot(N[f], p[v] - p[f.halfedge().vertex()])) < 1e-9;
    if (!fl) continue;
    for (int c = 0; c < 3; c++)
      for (int r = 0; r < 3; r++) {
        double want = (r == c ? 1. : 0.) - N[f][r] * N[f][c];
        k.eq("polygonGradientMatrix of linear functions", GP(3 * fi[f] + r, c), want, "", 1e-7);
      }
  }
  DM LM = geo::dense(g.polygonVertexLumpedMassMatrix), RM = DM::Zero(nV, nV);
  for (Face f : m.faces())
    for (Vertex v : f.adjacentVertices()) RM(vi[v], vi[v]) += A[f] / f.degree();
  k.mat("polygonVertexLumpedMassMatrix", LM, RM);
  k.mat("polygonHodge0", geo::dense(g.polygonHodge0), RM);
  for (size_t i = 0; i < nV; i++) k.eq("polygonHodge0Inverse", geo::dense(g.polygonHodge0Inverse)(i, i) * RM(i, i), 1.);
  DM D0 = geo::dense(g.polygonD0), D1 = geo::dense(g.polygonD1), H1 = geo::dense(g.polygonHodge1), H2 = geo::dense(g.polygonHodge2);
  DM R0 = DM::Zero(m.nHalfedges(), nV), R1 = DM::Zero(nF, m.nHalfedges());
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      R0(hi[h], vi[h.tipVertex()]) += 1;
      R0(hi[h], vi[h.tailVertex()]) -= 1;
      R1(fi[f], hi[h]) = 1;
    }
  k.mat("polygonD0", D0, R0);
  k.mat("polygonD1", D1, R1);
  k.mat("polygonD1*polygonD0", DM(D1 * D0), DM(DM::Zero(nF, nV)));
  k.mat("D0' Hodge1 D0 = polygonLaplacian", DM(D0.transpose() * H1 * D0), L, 1e-7);
  k.mat("polygonHodge1 symmetry", H1, DM(H1.transpose()), 1e-9 * (1 + H1.cwiseAbs().maxCoeff()));
  k.ok("polygonHodge1 positivity", minEig((H1 + H1.transpose()) / 2) > -1e-7 * (1 + H1.cwiseAbs().maxCoeff()), "fails");
  for (Face f : m.faces()) {
    k.eq("polygonHodge2", H2(fi[f], fi[f]), 1 / A[f]);
    k.eq("polygonHodge2Inverse", geo::dense(g.polygonHodge2Inverse)(fi[f], fi[f]), A[f]);
  }
  DM GM = geo::dense(g.simplePolygonVertexGalerkinMassMatrix), SM = geo::dense(g.simplePolygonVertexLumpedMassMatrix);
  k.mat("simplePolygonVertexGalerkinMassMatrix symmetry", GM, DM(GM.transpose()), 1e-9);
  k.ok("simplePolygonVertexGalerkinMassMatrix positivity", minEig((GM + GM.transpose()) / 2) > 1e-9, "fails");
  for (size_t i = 0; i < nV; i++) k.eq("simplePolygonVertexLumpedMassMatrix is the row sums", SM(i, i), GM.row(i).sum());
  if (tri) {
    g.requireVertexGalerkinMassMatrix();
    k.mat("simplePolygonVertexGalerkinMassMatrix on triangles", GM, geo::dense(g.vertexGalerkinMassMatrix), 1e-6);
  }
  if (convex) k.eq("total simplePolygon mass", GM.sum(), total, "", 1e-7);
  bool goodNormals = true;
  if (connection && manifold) { // polygon tangent spaces
    g.requireVertexNormals();
    g.requireVertexTangentBasis();
    g.requireFaceTangentBasis();
    g.requireHalfedgeVectorsInVertex();
    for (Face f : m.faces()) {
      auto& b = g.faceTangentBasis[f];
      Vector3 fe = p[f.halfedge().tipVertex()] - p[f.halfedge().vertex()];
      if (norm(cross(fe, N[f])) < 1e-3 * norm(fe)) { // the first side is parallel to the normal: no direction to align with
        goodNormals = false;
        continue;
      }
      k.ok("faceTangentBasis (polygon)", closeRel(norm(b[0]), 1, 1e-7) && std::abs(dot(b[0], N[f])) < 1e-7 && norm(cross(N[f], b[0]) - b[1]) < 1e-6, "is not a right-handed orthonormal frame");
    }
    for (Vertex v : m.vertices()) {
      double sum = 0;
      Vector3 vn{0, 0, 0};
      auto angleAt = [&](Halfedge h) {
        Vector3 a = p[h.tipVertex()] - p[h.vertex()], b = p[h.prevOrbitFace().vertex()] - p[h.vertex()];
        return std::atan2(norm(cross(a, b)), dot(a, b));
      };
      for (Halfedge h : v.outgoingHalfedges())
        if (h.isInterior()) {
          double t = angleAt(h);
          sum += t;
          vn += t * N[h.face()];
        }
      if (norm(vn) < 1e-3) {
        goodNormals = false;
        continue;
      }
      vn = vn.normalize();
      for (Face f : v.adjacentFaces()) goodNormals = goodNormals && dot(vn, N[f]) > -0.99;
      k.eq("vertexNormals (polygon)", g.vertexNormals[v], vn, "", 1e-6);
      // halfedge vectors: CCW from vertex.halfedge(), angles rescaled (boundary: by either documented reading)
      Halfedge h = v.halfedge();
      double th = 0, sc = v.isBoundary() ? 0 : 2 * PI / sum;
      if (v.isBoundary()) {
        g.requireCornerScaledAngles();
        sc = g.cornerScaledAngles[h.corner()] / angleAt(h);
      }
      Vector3 bx{0, 0, 0};
      do {
        double l = norm(p[h.tipVertex()] - p[v]);
        k.eq("halfedgeVectorsInVertex (polygon)", g.halfedgeVectorsInVertex[h], Vector2{l * std::cos(th), l * std::sin(th)}, "", 1e-6);
        Vector3 e = p[h.tipVertex()] - p[v];
        e -= vn * dot(e, vn);
        bx += e * std::cos(-th) + cross(vn, e) * std::sin(-th);
        if (!h.isInterior()) break;
        th += sc * angleAt(h);
        h = h.prevOrbitFace().twin();
      } while (h != v.halfedge());
      if (norm(bx) > 1e-3) {
        auto& b = g.vertexTangentBasis[v];
        k.ok("vertexTangentBasis (polygon)", closeRel(norm(b[0]), 1, 1e-7) && std::abs(dot(b[0], vn)) < 1e-6 && norm(cross(vn, b[0]) - b[1]) < 1e-6 && norm(b[0] - bx.normalize()) < 1e-5,
             "is not the frame aligned with the halfedge vectors");
      } else
        goodNormals = false;
    }
  }
  if (connection && manifold && goodNormals) {
    g.requirePolygonVertexConnectionLaplacian();
    CM C = geo::dense(g.polygonVertexConnectionLaplacian);
    k.mat("polygonVertexConnectionLaplacian adjoint", C, CM(C.adjoint()), 1e-9 * (1 + C.cwiseAbs().maxCoeff()));
    k.ok("polygonVertexConnectionLaplacian positivity", minEigC(C) > -1e-7 * (1 + C.cwiseAbs().maxCoeff()), cat("fails: ", minEigC(C)));
    if (planar) {
      // parallel fields are in the kernel on a flat mesh
      g.requireVertexTangentBasis();
      Eigen::VectorXcd x(nV);
      for (int ax = 0; ax < 3; ax++) {
        Vector3 d{0, 0, 0};
        d[ax] = 1;
        for (Vertex v : m.vertices()) x[vi[v]] = cd(dot(d, g.vertexTangentBasis[v][0]), dot(d, g.vertexTangentBasis[v][1]));
        k.ok("polygonVertexConnectionLaplacian of parallel fields", (C * x).cwiseAbs().maxCoeff() < 1e-6 * (1 + C.cwiseAbs().maxCoeff()), "is not zero on a flat mesh");
      }
    }
  }
  k.ctx.outcome(planar ? "planar polygon mesh" : flatFaces ? "flat faces" : "warped faces");
}

static void lengthsOf(SurfaceMesh& m, const VertexData<Vector3>& p, std::vector<double>& L) {
  L.clear();
  for (Edge e : m.edges()) L.push_back(norm(p[e.halfedge().tipVertex()] - p[e.halfedge().tailVertex()]));
}
static void edgeLengthGeom(Ck& k, SurfaceMesh& m, const std::vector<double>& L, bool manifold) {
  EdgeData<double> d(m);
  size_t i = 0;
  for (Edge e : m.edges()) d[e] = L[i++];
  EdgeLengthGeometry g(m, d);
  intrinsic(k, g, m, L, manifold);
  for (Face f : m.faces()) k.eq("EdgeLengthGeometry::faceArea()", g.faceArea(f), g.faceAreas[f]);
  for (Vertex v : m.vertices()) k.eq("EdgeLengthGeometry::vertexDualArea()", g.vertexDualArea(v), g.vertexDualAreas[v]);
  for (Corner c : m.corners()) k.eq("EdgeLengthGeometry::cornerAngle()", g.cornerAngle(c), g.cornerAngles[c], "", 1e-7);
  for (Halfedge h : m.interiorHalfedges()) k.eq("EdgeLengthGeometry::halfedgeCotanWeight()", g.halfedgeCotanWeight(h), g.halfedgeCotanWeights[h]);
  for (Edge e : m.edges()) k.eq("EdgeLengthGeometry::edgeCotanWeight()", g.edgeCotanWeight(e), g.edgeCotanWeights[e]);
  if (manifold)
    for (Vertex v : m.vertices()) k.eq("EdgeLengthGeometry::vertexGaussianCurvature()", g.vertexGaussianCurvature(v), g.vertexGaussianCurvatures[v], "", 1e-7);
  for (Face f : m.faces()) {
    double prod = 1;
    for (Halfedge h : f.adjacentHalfedges()) prod *= g.edgeLengths[h.edge()];
    k.eq("EdgeLengthGeometry::faceCircumradius()", g.faceCircumradius(f), prod / (4 * g.faceAreas[f]));
  }
}

static void embedded(Ctx& ctx, const std::string& id, const Polys& P, const Pts& p, bool manifold, bool poly) {
  Ck k{ctx, id, {}};
  ctx.state(hashStr(id));
  ctx.transition();
  std::vector<double> L;
  auto run = [&](SurfaceMesh& m, VertexPositionGeometry& g) {
    lengthsOf(m, g.inputVertexPositions, L);
    intrinsic(k, g, m, L, manifold);
    extrinsic(k, g, m, manifold);
    edgeLengthGeom(k, m, L, manifold);
    if (poly) polygon(k, g, m, true, manifold, true);
  };
  if (manifold) {
    auto e = geo::manifold(P, p);
    run(*e.mesh, *e.geom);
  } else {
    auto e = geo::general(P, p);
    run(*e.mesh, *e.geom);
  }
  ctx.eval();
  ctx.trace();
}
static void polyMesh(Ctx& ctx, const std::string& id, const Polys& P, const Pts& p, bool conn) {
  Ck k{ctx, id, {}};
  ctx.state(hashStr(id));
  ctx.transition();
  auto e = geo::manifold(P, p);
  polygon(k, *e.geom, *e.mesh, false, true, conn);
  auto e2 = geo::general(P, p);
  polygon(k, *e2.geom, *e2.mesh, false, false, false);
  ctx.eval();
  ctx.trace();
}

int main(int argc, char** argv) {
  Options o;
  o.property = "C08";
  o.technique = "exhaustive enumeration of small embedded / metric surfaces, every quantity compared with a reference computed from first principles";
  o.rule = "all placements of the vertices of each family on a small integer point set without degenerate faces; all edge lengths from a small set on all gluings";
  o.assumptions = {"values compared to 1e-8..1e-5 relative", "at boundary vertices both documented readings of the angle rescaling are accepted"};
  o.caseCpuLimit = 120;
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    ctx.sample("tetra on {0,1}^3 + (2,1,0): 2L(area, angles, cotans, operators) vs reference");
    Pts c8 = geo::lattice(2, 2, 2), c6 = {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}, {1, 1, 1}, {0, 2, 1}, {1, 0, 2}};
    Pts c7 = c6;
    c7.push_back({2, 1, 0});
    Pts c12 = geo::lattice(3, 2, 2);
    struct Fam {
      std::string nm;
      Polys P;
      Pts a;
      bool man, poly;
    };
    Pts flat9 = geo::lattice(3, 3, 1);
    std::vector<Fam> fs = {
        {"tri", {{0, 1, 2}}, c12, true, true},
        {"tetra", gen::tetra(), th ? c12 : c8, true, true},
        {"fan2", gen::openFan(2), th ? c12 : c8, true, true},
        {"fan3", gen::openFan(3), th ? c8 : c6, true, true},
        {"cfan3", gen::closedFan(3), th ? c12 : c8, true, true},
        {"cfan4", gen::closedFan(4), th ? c8 : c7, true, true},
        {"bipyr3", gen::bipyramid(3), th ? c8 : c6, true, true},
        {"octa", gen::bipyramid(4), th ? c7 : c6, true, false},
        {"flat-cfan3", gen::closedFan(3), flat9, true, true},
        {"g-tetra", gen::tetra(), c7, false, true},
        {"g-cfan3", gen::closedFan(3), c7, false, false},
        {"book3", gen::book(3), th ? c8 : c6, false, true},
        {"same-dir", {{0, 1, 2}, {0, 1, 3}}, c8, false, true},
        {"flip-fan", {{0, 1, 2}, {0, 3, 2}, {0, 3, 4}}, c6, false, false},
        {"moebius5", {{0, 1, 2}, {1, 2, 3}, {2, 3, 4}, {3, 4, 0}, {4, 0, 1}}, c6, false, false},
    };
    for (auto& f : fs)
      geo::placements(f.P, f.a, [&](const Pts& p, size_t n) {
        if (ctx.beginf([&] { return cat(f.nm, "-", n); })) embedded(ctx, cat(f.nm, geo::str(p)), f.P, p, f.man, f.poly);
      });
    // larger closed / bounded shapes with every single (thorough: pair) vertex offset
    std::vector<geo::Shape> shapes = {geo::torus(3, 3, 1), geo::torus(4, 3, 3), geo::planarGrid(2, 2, 1), geo::planarGrid(2, 2, 2, true), geo::cylinder(3, 2, 1),
                                      geo::icosahedron(), geo::cubeTri(), geo::planarGrid(3, 2, 3, true)};
    Pts offs = {{.25, .125, .5}, {-.125, .25, -.25}};
    for (auto& s : shapes)
      geo::wiggles(s, offs, th ? 2 : 1, [&](const geo::Shape& w, size_t n) {
        if (ctx.beginf([&] { return cat(s.name, "-w", n); })) embedded(ctx, cat(s.name, "-w", n), w.P, w.p, true, true);
      });
    // intrinsic metrics: every triangle gluing, edge lengths from a small set
    std::vector<double> ls = {2, 3, 3.5};
    for (int nt = 1; nt <= (th ? 3 : 2); nt++)
      gen::gluings(std::vector<int>(nt, 3), [&](const Polys& P, const gen::Twins& T) {
        gen::HS s;
        // the library constructors do not accept self-edges, but lengths on every other gluing are explored
        if (!gen::manifoldFromTwins(P, T, s).empty()) return;
        if (!ctx.beginf([&] { return cat("glue-", gen::str(T)); })) return;
        ManifoldSurfaceMesh m(P, [&] {
          std::vector<std::vector<std::tuple<size_t, size_t>>> tw;
          for (auto& r : T) {
            tw.emplace_back();
            for (auto& x : r) tw.back().push_back(x.first < 0 ? std::make_tuple(INVALID_IND, INVALID_IND) : std::make_tuple((size_t)x.first, (size_t)x.second));
          }
          return tw;
        }());
        size_t nE = m.nEdges();
        std::vector<int> c(nE, 0);
        while (true) {
          std::vector<double> L;
          for (int x : c) L.push_back(ls[x]);
          std::string id = cat("glue", gen::str(T), str(L));
          Ck k{ctx, id, {}};
          ctx.state(hashStr(id));
          ctx.transition();
          edgeLengthGeom(k, m, L, true);
          ctx.eval();
          size_t i = 0;
          while (i < nE && ++c[i] == (int)ls.size()) c[i++] = 0;
          if (i == nE) break;
        }
        ctx.trace();
      });
    // polygon meshes
    struct PF {
      std::string nm;
      Polys P;
      Pts a;
    };
    std::vector<PF> pf = {{"quad", {{0, 1, 2, 3}}, th ? c12 : c8},
                          {"quadflat", {{0, 1, 2, 3}}, flat9},
                          {"quad+tri", {{0, 1, 2, 3}, {1, 0, 4}}, th ? c8 : c7},
                          {"penta", {{0, 1, 2, 3, 4}}, c7},
                          {"pyramid4", {{0, 1, 2, 3}, {1, 0, 4}, {2, 1, 4}, {3, 2, 4}, {0, 3, 4}}, th ? c8 : c7}};
    for (auto& f : pf)
      geo::placements(f.P, f.a, [&](const Pts& p, size_t n) {
        for (auto& q : f.P)
          if (norm(geo::vectorArea(q, p)) < 0.3) return;
        if (ctx.beginf([&] { return cat(f.nm, "-", n); })) polyMesh(ctx, cat(f.nm, geo::str(p)), f.P, p, true);
      });
    std::vector<geo::Shape> ps = {geo::planarGrid(2, 2, 0), geo::planarGrid(3, 3, 0, true), geo::torus(4, 3, 0), {"cube", gen::cube(), geo::cubeTri().p}};
    for (auto& s : ps)
      geo::wiggles(s, offs, th ? 2 : 1, [&](const geo::Shape& w, size_t n) {
        if (ctx.beginf([&] { return cat(s.name, "-pw", n); })) polyMesh(ctx, cat(s.name, "-pw", n), w.P, w.p, true);
      });
  });
}
