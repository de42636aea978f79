// C16: sparse solvers and linear algebra utilities.  Every small matrix over a small alphabet, with every right-hand side of
// a list (in sequence through one factorisation), compared with exact integer arithmetic.
#include "mc.h"
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "geometrycentral/numerical/linear_solvers.h"
#include <Eigen/Dense>
#include <set>
using namespace geometrycentral;
using namespace mc;
typedef std::complex<double> C;
typedef long long LL;
struct Z { // Gaussian integers
  LL r = 0, i = 0;
  Z operator*(Z o) const { return {r * o.r - i * o.i, r * o.i + i * o.r}; }
  Z operator+(Z o) const { return {r + o.r, i + o.i}; }
  Z operator-(Z o) const { return {r - o.r, i - o.i}; }
  Z bar() const { return {r, -i}; }
  bool zero() const { return !r && !i; }
};
typedef std::vector<std::vector<Z>> M;
static Z det(const M& a) {
  size_t n = a.size();
  if (n == 0) return {1, 0};
  Z s;
  for (size_t j = 0; j < n; j++) {
    if (a[0][j].zero()) continue;
    M b;
    for (size_t i = 1; i < n; i++) {
      b.push_back({});
      for (size_t k = 0; k < n; k++)
        if (k != j) b.back().push_back(a[i][k]);
    }
    Z t = a[0][j] * det(b);
    s = j % 2 ? s - t : s + t;
  }
  return s;
}
static size_t rankOf(M a) { // fraction-free elimination
  size_t r = 0, n = a.size(), m = n ? a[0].size() : 0;
  for (size_t c = 0; c < m && r < n; c++) {
    size_t p = r;
    while (p < n && a[p][c].zero()) p++;
    if (p == n) continue;
    std::swap(a[p], a[r]);
    for (size_t i = r + 1; i < n; i++) {
      Z f = a[i][c];
      for (size_t k = 0; k < m; k++) a[i][k] = a[i][k] * a[r][c] - a[r][k] * f;
    }
    r++;
  }
  return r;
}
template <class T> T val(Z z);
template <> double val<double>(Z z) { return z.r; }
template <> float val<float>(Z z) { return z.r; }
template <> C val<C>(Z z) { return C(z.r, z.i); }
// exact solution of a nonsingular square system (Cramer)
static std::vector<C> exact(const M& a, const std::vector<Z>& b) {
  Z d = det(a);
  std::vector<C> x;
  for (size_t j = 0; j < a.size(); j++) {
    M c = a;
    for (size_t i = 0; i < a.size(); i++) c[i][j] = b[i];
    Z e = det(c);
    x.push_back(C(e.r, e.i) / C(d.r, d.i));
  }
  return x;
}
static M adj(const M& a) {
  M r(a.empty() ? 0 : a[0].size(), std::vector<Z>(a.size()));
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < a[i].size(); j++) r[j][i] = a[i][j].bar();
  return r;
}
static M mul(const M& a, const M& b) {
  M r(a.size(), std::vector<Z>(b[0].size()));
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b[0].size(); j++)
      for (size_t k = 0; k < b.size(); k++) r[i][j] = r[i][j] + a[i][k] * b[k][j];
  return r;
}
static std::vector<Z> mulv(const M& a, const std::vector<Z>& b) {
  std::vector<Z> r(a.size());
  for (size_t i = 0; i < a.size(); i++)
    for (size_t k = 0; k < b.size(); k++) r[i] = r[i] + a[i][k] * b[k];
  return r;
}
template <class T>
SparseMatrix<T> sparse(const M& a, size_t rows, size_t cols, bool messy) {
  SparseMatrix<T> s(rows, cols);
  if (messy) { // uncompressed, inserted out of order, explicit zeros
    for (size_t i = rows; i-- > 0;)
      for (size_t j = cols; j-- > 0;) s.insert(i, j) = val<T>(a[i][j]);
  } else {
    std::vector<Eigen::Triplet<T>> t;
    for (size_t i = 0; i < rows; i++)
      for (size_t j = 0; j < cols; j++)
        if (!a[i][j].zero()) t.emplace_back(i, j, val<T>(a[i][j]));
    s.setFromTriplets(t.begin(), t.end());
  }
  return s;
}
template <class T>
Vector<T> dense(const std::vector<Z>& b) {
  Vector<T> v(b.size());
  for (size_t i = 0; i < b.size(); i++) v[i] = val<T>(b[i]);
  return v;
}

struct Case {
  Ctx& ctx;
  std::string id;
  std::set<std::string> seen;
  void bad(const std::string& k, const std::string& msg) {
    if (seen.insert(k).second) ctx.fail(k + "|" + id, k + ": " + msg + " [" + id + "]");
  }
  template <class T>
  bool eq(const Vector<T>& x, const std::vector<C>& w, double tol) {
    if ((size_t)x.rows() != w.size()) return false;
    double s = 1;
    for (C c : w) s = std::max(s, std::abs(c));
    for (size_t i = 0; i < w.size(); i++)
      if (!(std::abs(C(x[i]) - w[i]) < tol * s)) return false;
    return true;
  }
  template <class T> static double tol() { return std::is_same<T, float>::value ? 2e-4 : 1e-9; }
  template <class T, class S>
  void square(const std::string& name, const M& a, const std::vector<std::vector<Z>>& rhs, bool messy) {
    SparseMatrix<T> A = sparse<T>(a, a.size(), a.size(), messy);
    S s(A);
    Vector<T> kept;
    for (int round = 0; round < 2; round++) // the factorisation is used for a whole sequence of right-hand sides
      for (auto& b : rhs) {
        ctx.eval();
        auto w = exact(a, b);
        Vector<T> B = dense<T>(b);
        Vector<T> x = s.solve(B);
        s.solve(kept, B);
        if (!eq(x, w, tol<T>()) || !eq(kept, w, tol<T>())) bad(name, cat("wrong solution, round ", round));
        double want = 0;
        Vector<T> y = x;
        y[0] += T(2);
        for (size_t i = 0; i < a.size(); i++) want += 4 * (a[i][0].r * a[i][0].r + a[i][0].i * a[i][0].i);
        if (std::abs(residual(A, y, B) - std::sqrt(want)) > 1e3 * tol<T>()) bad("residual", cat(residual(A, y, B), " not ", std::sqrt(want)));
      }
  }
  // general solver: exact for square and full-rank underdetermined systems, least squares otherwise
  template <class T>
  void qr(const M& a, size_t n, size_t m, const std::vector<std::vector<Z>>& rhs, bool messy) {
    SparseMatrix<T> A = sparse<T>(a, n, m, messy);
    Solver<T> s(A);
    size_t r = rankOf(a);
    if (s.rank() != r) bad("rank", cat(s.rank(), " not ", r));
    ctx.outcome(cat("rank ", r, " of ", n, "x", m));
    Vector<T> kept;
    for (int round = 0; round < 2; round++)
      for (auto& b : rhs) {
        ctx.eval();
        Vector<T> B = dense<T>(b);
        M ab = a;
        for (size_t i = 0; i < n; i++) ab[i].push_back(b[i]);
        bool consistent = rankOf(ab) == r;
        if (r < std::min(n, m) && !consistent) continue;
        Vector<T> x = s.solve(B);
        s.solve(kept, B);
        if ((size_t)x.rows() != m || (kept - x).norm() > tol<T>() * (1 + x.norm())) {
          bad("Solver", cat("inconsistent answers, round ", round));
          continue;
        }
        if (r == m) { // unique least-squares solution: A^H A x = A^H b
          M N = mul(adj(a), a);
          if (!eq(x, exact(N, mulv(adj(a), b)), 10 * tol<T>())) bad("Solver", cat("not the least-squares solution, round ", round));
        } else {
          if (!((A * x - B).norm() < 10 * tol<T>() * (1 + B.norm()))) bad("Solver", cat("does not solve a consistent system of rank ", r, ", round ", round));
        }
      }
  }
  template <class T>
  void positive(const M& a, const std::vector<std::vector<Z>>& rhs) {
    square<T, PositiveDefiniteSolver<T>>("PositiveDefiniteSolver", a, rhs, false);
    SparseMatrix<T> A = sparse<T>(a, a.size(), a.size(), true);
    for (auto& b : rhs)
      if (!eq(solvePositiveDefinite(A, dense<T>(b)), exact(a, b), tol<T>())) bad("solvePositiveDefinite", "wrong solution");
  }
  // eigenvectors of A x = l D x for Hermitian positive definite A and diagonal positive D
  template <class T>
  void eigen(const M& a, const std::vector<LL>& mass, bool tolVariant) {
    size_t n = a.size();
    M d(n, std::vector<Z>(n));
    for (size_t i = 0; i < n; i++) d[i][i] = {mass[i], 0};
    SparseMatrix<T> A = sparse<T>(a, n, n, false), D = sparse<T>(d, n, n, false);
    Eigen::MatrixXcd Ad(n, n), Dd = Eigen::MatrixXcd::Zero(n, n);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) Ad(i, j) = C(a[i][j].r, a[i][j].i);
    for (size_t i = 0; i < n; i++) Ad.row(i) /= std::sqrt((double)mass[i]);
    for (size_t i = 0; i < n; i++) Ad.col(i) /= std::sqrt((double)mass[i]);
    Eigen::VectorXd l = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd>(Ad).eigenvalues();
    double e = std::is_same<T, float>::value ? 2e-3 : 1e-6;
    auto unit = [&](const Vector<T>& x) { return std::abs(std::abs(C(x.dot(D * x))) - 1) < e; };
    auto value = [&](const Vector<T>& x) { return std::real(C(x.dot(A * x))); };
    auto isEig = [&](const Vector<T>& x, double lam) { return (size_t)x.rows() == n && unit(x) && std::abs(value(x) - lam) < e * (1 + l[n - 1]) && (A * x - T(lam) * (D * x)).norm() < 10 * e * (1 + l[n - 1]); };
    auto sep = [&](size_t k) { return k + 1 == n || l[k] < .75 * l[k + 1] || l[k + 1] - l[k] < 1e-9 * l[k]; };
    // groups of equal eigenvalues separated from the rest
    bool allSep = true, lowSep = sep(0), highSep = n == 1 || l[n - 2] < .75 * l[n - 1] || l[n - 1] - l[n - 2] < 1e-9;
    for (size_t k = 0; k < n; k++) allSep &= sep(k);
    for (size_t k = 1; k < n && l[k] - l[0] < 1e-9; k++) lowSep &= sep(k);
    for (size_t k = n - 1; k-- > 0 && l[n - 1] - l[k + 1] < 1e-9;) highSep &= l[k] < .75 * l[n - 1] || l[n - 1] - l[k] < 1e-9;
    if (lowSep) {
      ctx.eval();
      Vector<T> x = smallestEigenvectorPositiveDefinite(A, D, 100), y = smallestEigenvectorSquare(A, D, 100);
      if (!isEig(x, l[0])) bad("smallestEigenvectorPositiveDefinite", cat("value ", value(x), " not ", l[0]));
      if (!isEig(y, l[0])) bad("smallestEigenvectorSquare", cat("value ", value(y), " not ", l[0]));
    }
    if (highSep) {
      Vector<T> x = largestEigenvector(A, D, 100);
      if (!isEig(x, l[n - 1])) bad("largestEigenvector", cat("value ", value(x), " not ", l[n - 1]));
    }
    if (allSep)
      for (size_t k = 1; k <= n; k++)
        for (int v = 0; v < (tolVariant ? 2 : 1); v++) {
          ctx.eval();
          auto xs = v ? smallestKEigenvectorsPositiveDefiniteTol(A, D, k, 1e-8) : smallestKEigenvectorsPositiveDefinite(A, D, k, 100);
          std::string nm = cat("smallestKEigenvectorsPositiveDefinite", v ? "Tol" : "");
          if (xs.size() != k) {
            bad(nm, cat(xs.size(), " vectors"));
            continue;
          }
          for (size_t i = 0; i < k; i++) {
            if (!isEig(xs[i], l[i])) bad(nm, cat("vector ", i, " of ", k, " has value ", value(xs[i]), " not ", l[i]));
            for (size_t j = 0; j < i; j++)
              if (std::abs(C(xs[i].dot(D * xs[j]))) > 10 * e) bad(nm, "vectors are not orthogonal");
          }
        }
  }
  // utilities --------------------------------------------------------------------------------------------------------
  template <class T>
  void utilities(const M& a, size_t n, size_t m) {
    SparseMatrix<T> A = sparse<T>(a, n, m, false), U = sparse<T>(a, n, m, true);
    auto at = [&](const M& x, size_t i, size_t j) { return val<T>(x[i][j]); };
    ctx.eval();
    if (n == m) {
      for (size_t sub = 0; sub < (1u << n); sub++)
        for (int bside = 0; bside < 2; bside++) {
          Vector<bool> in(n);
          std::vector<size_t> ia, ib;
          for (size_t i = 0; i < n; i++) {
            in[i] = sub >> i & 1;
            (in[i] ? ia : ib).push_back(i);
          }
          auto d = blockDecomposeSquare(sub % 2 ? A : U, in, (bool)bside);
          ctx.transition();
          auto block = [&](const SparseMatrix<T>& B, const std::vector<size_t>& r, const std::vector<size_t>& c) {
            if ((size_t)B.rows() != r.size() || (size_t)B.cols() != c.size()) return false;
            for (size_t i = 0; i < r.size(); i++)
              for (size_t j = 0; j < c.size(); j++)
                if (B.coeff(i, j) != at(a, r[i], c[j])) return false;
            return true;
          };
          if (!block(d.AA, ia, ia) || !block(d.AB, ia, ib) || (bside && (!block(d.BA, ib, ia) || !block(d.BB, ib, ib)))) bad("blockDecomposeSquare", cat("subset ", sub));
          for (size_t i = 0; i < n; i++)
            if (d.isA[i] != in[i] || (in[i] ? d.origIndsA[d.newInds[i]] : d.origIndsB[d.newInds[i]]) != i) bad("blockDecomposeSquare", cat("indices of subset ", sub));
          Vector<T> v(n), va, vb;
          for (size_t i = 0; i < n; i++) v[i] = T(i + 1);
          decomposeVector(d, v, va, vb);
          if ((size_t)va.rows() != ia.size() || (size_t)vb.rows() != ib.size()) bad("decomposeVector", cat("sizes for subset ", sub));
          else {
            for (size_t i = 0; i < ia.size(); i++)
              if (va[i] != v[ia[i]]) bad("decomposeVector", cat("subset ", sub));
            for (size_t i = 0; i < ib.size(); i++)
              if (vb[i] != v[ib[i]]) bad("decomposeVector", cat("subset ", sub));
            if (reassembleVector(d, va, vb) != v) bad("reassembleVector", cat("subset ", sub));
          }
        }
      bool sym = true, herm = true;
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) {
          sym &= at(a, i, j) == at(a, j, i);
          herm &= C(at(a, i, j)) == std::conj(C(at(a, j, i)));
        }
      for (auto* X : {&A, &U}) {
        if (throws([&] { checkSymmetric(*X); }) == sym) bad("checkSymmetric", cat("symmetric is ", sym));
        if (throws([&] { checkHermitian(*X); }) == herm) bad("checkHermitian", cat("Hermitian is ", herm));
        if (throws([&] { checkSymmetric(*X, 10.); })) bad("checkSymmetric", "throws within the given tolerance");
      }
      SparseMatrix<T> S = A;
      shiftDiagonal(S, T(3));
      SparseMatrix<T> I = identityMatrix<T>(n);
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) {
          if (S.coeff(i, j) != at(a, i, j) + (i == j ? T(3) : T(0))) bad("shiftDiagonal", "");
          if (I.coeff(i, j) != (i == j ? T(1) : T(0))) bad("identityMatrix", "");
        }
    }
    SparseMatrix<T> I = identityMatrix<T>(m), J = identityMatrix<T>(n);
    SparseMatrix<T> V = verticalStack<T>({A, I, U}), H = horizontalStack<T>({A, J, U});
    if ((size_t)V.rows() != 2 * n + m || (size_t)V.cols() != m || (size_t)H.rows() != n || (size_t)H.cols() != 2 * m + n) bad("stack", "size");
    else {
      for (size_t i = 0; i < 2 * n + m; i++)
        for (size_t j = 0; j < m; j++)
          if (V.coeff(i, j) != (i < n ? at(a, i, j) : i < n + m ? (i - n == j ? T(1) : T(0)) : at(a, i - n - m, j))) bad("verticalStack", "");
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < 2 * m + n; j++)
          if (H.coeff(i, j) != (j < m ? at(a, i, j) : j < n + m ? (j - m == i ? T(1) : T(0)) : at(a, i, j - n - m))) bad("horizontalStack", "");
    }
    if (n != m) {
      if (!throws([&] { verticalStack<T>({A, J}); })) bad("verticalStack", "accepts different widths");
      if (!throws([&] { horizontalStack<T>({A, I}); })) bad("horizontalStack", "accepts different heights");
      if (!throws([&] { SquareSolver<T> s(A); })) bad("SquareSolver", "accepts a matrix which is not square");
      if (!throws([&] { PositiveDefiniteSolver<T> s(A); })) bad("PositiveDefiniteSolver", "accepts a matrix which is not square");
      if (!throws([&] { blockDecomposeSquare(A, Vector<bool>(Vector<bool>::Constant(n, true))); })) bad("blockDecomposeSquare", "accepts a matrix which is not square");
    }
    // files
    DenseMatrix<T> D(n, m);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < m; j++) D(i, j) = at(a, i, j) / T(3) * T(std::pow(10., (double)(int)(i * m + j) * 3 - 6));
    SparseMatrix<T> S = D.sparseView();
    std::stringstream sd, ss;
    saveDenseMatrix(sd, D);
    saveSparseMatrix(ss, S);
    DenseMatrix<T> D2 = loadDenseMatrix<T>(sd);
    SparseMatrix<T> S2 = loadSparseMatrix<T>(ss);
    if (D2.rows() != D.rows() || D2.cols() != D.cols() || S2.rows() != S.rows() || S2.cols() != S.cols()) bad("save/load", "changes the size");
    else
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < m; j++) {
          double t = std::abs(D(i, j)) * (std::is_same<T, float>::value ? 1e-6 : 1e-14);
          if (std::abs(D2(i, j) - D(i, j)) > t) bad("save/load dense", cat("entry ", D(i, j), " becomes ", D2(i, j)));
          if (std::abs(S2.coeff(i, j) - D(i, j)) > t) bad("save/load sparse", cat("entry ", D(i, j), " becomes ", S2.coeff(i, j)));
        }
    // finite
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < m; j++)
        for (double v : {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1e30}) {
          bool fin = std::isfinite(v);
          for (int part = 0; part < 2; part++) {
            T t = T(v);
            if (part == 1) {
              if (!std::is_same<T, C>::value) continue;
              t = imag(t, v);
            }
            DenseMatrix<T> X = D;
            X(i, j) = t;
            SparseMatrix<T> Y = U;
            Y.coeffRef(i, j) = t;
            Vector<T> c = X.col(j);
            Eigen::Matrix<T, 1, Eigen::Dynamic> r = X.row(i);
            ctx.transition();
            if (throws([&] { checkFinite(X); }) == fin || throws([&] { checkFinite(Y); }) == fin || throws([&] { checkFinite(c); }) == fin) bad("checkFinite", cat("value ", v, " at ", i, " ", j));
            if (throws([&] { checkFinite(r); }) == fin) bad("checkFinite of a row vector", cat("value ", v, " at ", i, " ", j));
            if (!fin) {
              if (!throws([&] { Solver<T> s(Y); })) bad("Solver", "accepts a matrix which is not finite");
              if (n == m && !throws([&] { SquareSolver<T> s(Y); })) bad("SquareSolver", "accepts a matrix which is not finite");
            }
          }
        }
    auto std_ = unpackMatrixToStdVector(D);
    bool same = std_.size() == n;
    for (size_t i = 0; same && i < n; i++) {
      same &= std_[i].size() == m;
      for (size_t j = 0; same && j < m; j++) same &= std_[i][j] == D(i, j);
    }
    if (!same) bad("unpackMatrixToStdVector", "");
  }
  static double imag(double, double v) { return v; }
  static float imag(float, double v) { return v; }
  static C imag(C t, double v) { return C(1, v); }
  template <class F>
  static bool throws(F f) {
    try {
      f();
    } catch (std::exception&) {
      return true;
    }
    return false;
  }
  void complexToRealCheck(const M& a, size_t n, size_t m) {
    SparseMatrix<C> A = sparse<C>(a, n, m, false);
    SparseMatrix<double> R = complexToReal(A);
    if ((size_t)R.rows() != 2 * n || (size_t)R.cols() != 2 * m) return bad("complexToReal", "size");
    Vector<C> x(m);
    for (size_t j = 0; j < m; j++) x[j] = C(1. + j, .5 - (double)j);
    Vector<C> y = A * x;
    Vector<double> yr = R * complexToReal(x);
    if ((complexToReal(y) - yr).norm() > 1e-12 || (realToComplex(yr) - y).norm() > 1e-12) bad("complexToReal", "does not commute with products");
    for (size_t j = 0; j < m; j++)
      if (complexToReal(x)[2 * j] != x[j].real() || complexToReal(x)[2 * j + 1] != x[j].imag()) bad("complexToReal", "vector");
  }
  template <class T>
  void wrongLength(const M& a) {
    size_t n = a.size();
    SparseMatrix<T> A = sparse<T>(a, n, n, false);
    Solver<T> s(A);
    SquareSolver<T> q(A);
    Vector<T> B = Vector<T>::Ones(n + 1), N = Vector<T>::Ones(n);
    N[n - 1] = T(std::numeric_limits<double>::quiet_NaN());
    for (auto& b : {B, N})
      if (!throws([&] { s.solve(b); }) || !throws([&] { q.solve(b); })) bad("solve", "accepts a bad right-hand side");
  }
};

static std::vector<std::vector<Z>> rhsList(size_t n, bool cplx) {
  std::vector<std::vector<Z>> r;
  for (size_t i = 0; i < n; i++) {
    std::vector<Z> b(n);
    b[i] = {1, cplx ? (LL)i - 1 : 0};
    r.push_back(b);
  }
  std::vector<Z> b(n);
  for (size_t i = 0; i < n; i++) b[i] = {(LL)(i * i) - 2, cplx ? 1 - (LL)i : 0};
  r.push_back(b);
  r.push_back(std::vector<Z>(n));
  return r;
}
static void matrices(size_t n, size_t m, const std::vector<Z>& alpha, const std::function<void(const M&, size_t)>& f) {
  std::vector<size_t> d(n * m, 0);
  size_t idx = 0;
  while (true) {
    M a(n, std::vector<Z>(m));
    for (size_t k = 0; k < n * m; k++) a[k / m][k % m] = alpha[d[k]];
    f(a, idx++);
    size_t k = 0;
    while (k < n * m && ++d[k] == alpha.size()) d[k++] = 0;
    if (k == n * m) break;
  }
}

int main(int argc, char** argv) {
  mc::Options o;
  o.property = "C16";
  o.technique = "exhaustive exploration of the real solvers: every small matrix over an alphabet, sequences of right-hand sides through one factorisation";
  o.level = "bounded-exhaustive";
  o.rule = "solutions, least-squares solutions and ranks are compared with exact (Gaussian) integer arithmetic, eigenpairs with a dense solver";
  return mc::run(argc, argv, o, [&](Ctx& ctx) {
    bool th = ctx.thorough;
    auto each = [&](const char* kind, size_t n, size_t m, const std::vector<Z>& alpha, bool cplx) {
      std::set<int> dummy;
      matrices(n, m, alpha, [&](const M& a, size_t idx) {
        if (!ctx.beginf([&] { return cat(kind, " ", n, "x", m, " #", idx); })) return;
        Case c{ctx, cat(kind, " ", n, "x", m, " #", idx)};
        std::string s;
        for (auto& r : a)
          for (auto& z : r) s += cat(z.r, cplx ? cat(z.i < 0 ? "" : "+", z.i, "i") : "", " ");
        c.id += " = " + s;
        ctx.note(c.id);
        ctx.state(hashStr(c.id));
        ctx.trace();
        srand(1);
        auto rhs = rhsList(n, cplx);
        try {
          bool messy = idx % 2;
          if (cplx) {
            c.utilities<C>(a, n, m);
            c.complexToRealCheck(a, n, m);
            c.qr<C>(a, n, m, rhs, messy);
          } else {
            c.utilities<double>(a, n, m);
            c.qr<double>(a, n, m, rhs, messy);
            c.qr<float>(a, n, m, rhs, !messy);
          }
          if (n != m) return;
          Z d = det(a);
          if (d.zero()) return;
          bool herm = true, pd = true;
          for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) herm &= a[i][j].r == a[j][i].r && a[i][j].i == -a[j][i].i;
          if (cplx) {
            c.square<C, SquareSolver<C>>("SquareSolver", a, rhs, messy);
            c.wrongLength<C>(a);
          } else {
            c.square<double, SquareSolver<double>>("SquareSolver", a, rhs, messy);
            c.square<float, SquareSolver<float>>("SquareSolver<float>", a, rhs, messy);
            c.wrongLength<double>(a);
          }
          if (!herm) {
            if (cplx) {
              SparseMatrix<C> A = sparse<C>(a, n, n, false);
              if (!Case::throws([&] { PositiveDefiniteSolver<C> s(A); })) c.bad("PositiveDefiniteSolver", "accepts a matrix which is not Hermitian");
            } else {
              SparseMatrix<double> A = sparse<double>(a, n, n, false);
              if (!Case::throws([&] { PositiveDefiniteSolver<double> s(A); })) c.bad("PositiveDefiniteSolver", "accepts a matrix which is not symmetric");
            }
            return;
          }
          for (size_t k = 1; k <= n; k++) {
            M b(k, std::vector<Z>(k));
            for (size_t i = 0; i < k; i++)
              for (size_t j = 0; j < k; j++) b[i][j] = a[i][j];
            pd &= det(b).r > 0;
          }
          if (!pd) return;
          ctx.outcome("positive definite");
          for (int k = 0; k < 3; k++) {
            std::vector<LL> mass;
            for (size_t i = 0; i < n; i++) mass.push_back(1 + (i * k) % 3);
            if (cplx) c.eigen<C>(a, mass, true);
            else {
              c.eigen<double>(a, mass, true);
              c.eigen<float>(a, mass, false);
            }
          }
          if (cplx) c.positive<C>(a, rhs);
          else {
            c.positive<double>(a, rhs);
            c.positive<float>(a, rhs);
          }
        } catch (std::exception& e) {
          c.bad("exception", e.what());
        }
      });
    };
    std::vector<Z> three{{0, 0}, {1, 0}, {-1, 0}}, four{{0, 0}, {1, 0}, {-2, 0}, {3, 0}}, ci{{0, 0}, {1, 0}, {0, 1}, {-1, 2}, {2, 0}, {-1, -2}};
    each("real", 1, 1, four, false);
    each("real", 2, 2, {{0, 0}, {1, 0}, {-1, 0}, {2, 0}, {3, 0}, {-4, 0}}, false);
    each("real", 1, 3, four, false);
    each("real", 3, 1, four, false);
    each("real", 2, 3, three, false);
    each("real", 3, 2, three, false);
    each("real", 2, 4, th ? three : std::vector<Z>{{0, 0}, {1, 0}}, false);
    each("real", 4, 2, th ? three : std::vector<Z>{{0, 0}, {1, 0}}, false);
    each("complex", 1, 1, ci, true);
    each("complex", 2, 2, ci, true);
    each("complex", 1, 2, ci, true);
    each("complex", 2, 1, ci, true);
    each("complex", 2, 3, {{0, 0}, {1, 0}, {0, 1}}, true);
    each("complex", 3, 2, {{0, 0}, {1, 0}, {0, 1}}, true);
    each("real", 3, 3, th ? three : std::vector<Z>{{0, 0}, {1, 0}}, false);
    if (th) each("real", 4, 4, {{0, 0}, {1, 0}}, false);
    // symmetric matrices with larger entries
    size_t n = th ? 4 : 3;
    std::vector<LL> off{-2, -1, 0, 1}, dia{2, 3, 5, 8};
    size_t nOff = n * (n - 1) / 2, total = 1;
    for (size_t i = 0; i < nOff + n; i++) total *= 4;
    for (size_t idx = 0; idx < total; idx++) {
      if (!ctx.beginf([&] { return cat("symmetric ", n, " #", idx); })) continue;
      M a(n, std::vector<Z>(n));
      size_t k = idx;
      for (size_t i = 0; i < n; i++) {
        a[i][i].r = dia[k % 4];
        k /= 4;
      }
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < i; j++) {
          a[i][j].r = a[j][i].r = off[k % 4];
          k /= 4;
        }
      if (n == 4 && idx % 7) continue;
      bool pd = true;
      for (size_t q = 1; q <= n; q++) {
        M b(q, std::vector<Z>(q));
        for (size_t i = 0; i < q; i++)
          for (size_t j = 0; j < q; j++) b[i][j] = a[i][j];
        pd &= det(b).r > 0;
      }
      if (!pd) continue;
      Case c{ctx, cat("symmetric ", n, " #", idx)};
      ctx.state(hashStr(c.id));
      ctx.trace();
      srand(1);
      try {
        c.positive<double>(a, rhsList(n, false));
        c.eigen<double>(a, {1, 2, 1, 3}, true);
        // a Hermitian matrix with the same spectrum: conjugate by a diagonal of powers of i
        M h = a;
        Z p[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
        for (size_t i = 0; i < n; i++)
          for (size_t j = 0; j < n; j++) h[i][j] = p[i % 4] * a[i][j] * p[j % 4].bar();
        c.id += " Hermitian";
        c.positive<C>(h, rhsList(n, true));
        c.eigen<C>(h, {2, 1, 3, 1}, true);
      } catch (std::exception& e) {
        c.bad("exception", e.what());
      }
    }
  });
}
