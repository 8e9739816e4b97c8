// Small dense linear algebra for the oracles: plain loops in long double, independent of the library and cheap to compile.
#pragma once
#include <vector>
#include <cmath>
#include <cassert>
#include <algorithm>
namespace la {
struct V : std::vector<double> { // own type so that the operators below are found
  using std::vector<double>::vector;
  V() {}
  V(const std::vector<double>& o) : std::vector<double>(o) {}
};
struct M {
  int r = 0, c = 0; std::vector<double> a;
  M() {}
  M(int r_, int c_, double v = 0) : r(r_), c(c_), a((size_t)r_ * c_, v) {}
  double& operator()(int i, int j) { return a[(size_t)i * c + j]; }
  double operator()(int i, int j) const { return a[(size_t)i * c + j]; }
  static M eye(int n, double v = 1) { M m(n, n); for (int i = 0; i < n; i++) m(i, i) = v; return m; }
  M t() const { M m(c, r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(j, i) = (*this)(i, j); return m; }
  M sub(int i0, int j0, int nr, int nc) const { M m(nr, nc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) m(i, j) = (*this)(i0 + i, j0 + j); return m; }
  void put(int i0, int j0, const M& o) { for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) (*this)(i0 + i, j0 + j) = o(i, j); }
  double maxAbs() const { double m = 0; for (double v : a) m = std::max(m, std::fabs(v)); return m; }
  double normInf() const { double m = 0; for (int i = 0; i < r; i++) { double s = 0; for (int j = 0; j < c; j++) s += std::fabs((*this)(i, j)); m = std::max(m, s); } return m; }
};
inline M operator*(const M& x, const M& y) {
  assert(x.c == y.r);
  M m(x.r, y.c);
  for (int i = 0; i < x.r; i++) for (int j = 0; j < y.c; j++) { long double s = 0; for (int k = 0; k < x.c; k++) s += (long double)x(i, k) * y(k, j); m(i, j) = (double)s; }
  return m;
}
inline V operator*(const M& x, const V& y) {
  assert(x.c == (int)y.size());
  V v(x.r);
  for (int i = 0; i < x.r; i++) { long double s = 0; for (int k = 0; k < x.c; k++) s += (long double)x(i, k) * y[k]; v[i] = (double)s; }
  return v;
}
inline M operator+(M x, const M& y) { for (size_t i = 0; i < x.a.size(); i++) x.a[i] += y.a[i]; return x; }
inline M operator-(M x, const M& y) { for (size_t i = 0; i < x.a.size(); i++) x.a[i] -= y.a[i]; return x; }
inline M operator*(M x, double s) { for (auto& v : x.a) v *= s; return x; }
inline V operator+(V x, const V& y) { for (size_t i = 0; i < x.size(); i++) x[i] += y[i]; return x; }
inline V operator-(V x, const V& y) { for (size_t i = 0; i < x.size(); i++) x[i] -= y[i]; return x; }
inline V operator*(V x, double s) { for (auto& v : x) v *= s; return x; }
inline double maxAbs(const V& x) { double m = 0; for (double v : x) { if (std::isnan(v)) return v; m = std::max(m, std::fabs(v)); } return m; }
inline double dot(const V& x, const V& y) { long double s = 0; for (size_t i = 0; i < x.size(); i++) s += (long double)x[i] * y[i]; return (double)s; }

// Gauss-Jordan with full pivoting in long double; returns false when a pivot vanishes.  X := A^-1 B
inline bool solveMulti(const M& A, const M& B, M& X) {
  int n = A.r, m = B.c;
  std::vector<long double> a(A.a.begin(), A.a.end()), b(B.a.begin(), B.a.end());
  std::vector<int> rowOf(n, -1); std::vector<char> usedR(n, 0), usedC(n, 0);
  for (int s = 0; s < n; s++) {
    long double best = 0; int pi = -1, pj = -1;
    for (int i = 0; i < n; i++) if (!usedR[i]) for (int j = 0; j < n; j++) if (!usedC[j]) { long double v = fabsl(a[(size_t)i * n + j]); if (v > best) { best = v; pi = i; pj = j; } }
    if (pi < 0) return false;
    usedR[pi] = usedC[pj] = 1; rowOf[pj] = pi;
    long double inv = 1.0L / a[(size_t)pi * n + pj];
    for (int j = 0; j < n; j++) a[(size_t)pi * n + j] *= inv;
    for (int j = 0; j < m; j++) b[(size_t)pi * m + j] *= inv;
    for (int i = 0; i < n; i++) if (i != pi) {
      long double f = a[(size_t)i * n + pj];
      if (f == 0) continue;
      for (int j = 0; j < n; j++) a[(size_t)i * n + j] -= f * a[(size_t)pi * n + j];
      for (int j = 0; j < m; j++) b[(size_t)i * m + j] -= f * b[(size_t)pi * m + j];
    }
  }
  X = M(n, m);
  for (int j = 0; j < n; j++) for (int k = 0; k < m; k++) X(j, k) = (double)b[(size_t)rowOf[j] * m + k];
  return true;
}
inline bool solve(const M& A, const V& b, V& x) { M B((int)b.size(), 1), X; B.a = b; if (!solveMulti(A, B, X)) return false; x = X.a; return true; }
// condition number in the maximum norm, infinity when singular
inline double cond(const M& A) { if (A.r == 0) return 1; M X; if (!solveMulti(A, M::eye(A.r), X)) return INFINITY; double v = A.normInf() * X.normInf(); return v == v ? v : INFINITY; }
inline double det(const M& A) {
  int n = A.r; std::vector<long double> a(A.a.begin(), A.a.end()); long double d = 1;
  for (int i = 0; i < n; i++) {
    int p = i; for (int k = i; k < n; k++) if (fabsl(a[k * n + i]) > fabsl(a[p * n + i])) p = k;
    if (a[p * n + i] == 0) return 0;
    if (p != i) { d = -d; for (int j = 0; j < n; j++) std::swap(a[i * n + j], a[p * n + j]); }
    d *= a[i * n + i];
    for (int k = i + 1; k < n; k++) { long double f = a[k * n + i] / a[i * n + i]; for (int j = i; j < n; j++) a[k * n + j] -= f * a[i * n + j]; }
  }
  return (double)d;
}
// eigenvalues of a symmetric matrix (cyclic Jacobi), ascending
inline V eigSym(const M& A) {
  int n = A.r; M a = A;
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0, tot = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += a(i, j) * a(i, j); if (i != j) off += a(i, j) * a(i, j); }
    if (off <= 1e-32 * tot) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (a(p, q) == 0) continue;
      double th = (a(q, q) - a(p, p)) / (2 * a(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = a(k, p), y = a(k, q); a(k, p) = c * x - s * y; a(k, q) = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = a(p, k), y = a(q, k); a(p, k) = c * x - s * y; a(q, k) = s * x + c * y; }
    }
  }
  V e(n); for (int i = 0; i < n; i++) e[i] = a(i, i);
  std::sort(e.begin(), e.end());
  return e;
}
} // namespace la
