// C19: small vectors and matrices, symmetric matrices, dynamic vectors and matrices compute what they say.
#include "mon.h"
#include "la.h"
#include "math/Vec.h"
#include "math/Mat.h"
#include <memory>
using namespace nla3d; using namespace nla3d::math;
using mon::Rng; using mon::check; using mon::near; using mon::Str; using mon::ev;
static const double EPS = 2.3e-16;
static double val(Rng& r, double sc) { switch (r.irange(0, 9)) { case 0: return 0.0; case 1: return sc * r.irange(-3, 3); case 2: return sc * r.sign() * r.logrange(1e-9, 1.0); default: return sc * r.range(-1, 1); } }
template <uint16 D> Vec<D> rv(Rng& r, double sc) { Vec<D> v; for (uint16 i = 0; i < D; i++) v[i] = val(r, sc); return v; }
template <uint16 A, uint16 B> Mat<A, B> rm(Rng& r, double sc) { Mat<A, B> m; for (uint16 i = 0; i < A; i++) for (uint16 j = 0; j < B; j++) m[i][j] = val(r, sc); return m; }
template <uint16 A> MatSym<A> rs(Rng& r, double sc) { MatSym<A> m; m.zero(); for (uint16 i = 0; i < A; i++) for (uint16 j = i; j < A; j++) m.comp(i, j) = val(r, sc); return m; }
template <uint16 A, uint16 B> la::M L(const Mat<A, B>& m) { la::M x(A, B); for (uint16 i = 0; i < A; i++) for (uint16 j = 0; j < B; j++) x(i, j) = m[i][j]; return x; }
template <uint16 D> la::V L(const Vec<D>& v) { la::V x(D); for (uint16 i = 0; i < D; i++) x[i] = v[i]; return x; }
template <uint16 A> la::M L(MatSym<A>& m) { la::M x(A, A); for (uint16 i = 0; i < A; i++) for (uint16 j = 0; j < A; j++) x(i, j) = m.comp(i, j); return x; }
template <uint16 A, uint16 B> bool same(const std::string& k, const Mat<A, B>& m, const la::M& e, const la::M& mag, double f) {
  bool ok = e.r == A && e.c == B; check(k, ok, "shape");
  for (uint16 i = 0; ok && i < A; i++) for (uint16 j = 0; j < B; j++) ok &= near(k, m[i][j], e(i, j), f * EPS * mag(i, j), Str() << A << "x" << B << " at " << i << "," << j);
  return ok;
}
static la::M absM(la::M m) { for (auto& x : m.a) x = std::fabs(x); return m; }
static la::V absV(la::V m) { for (auto& x : m) x = std::fabs(x); return m; }
template <uint16 D> void same(const std::string& k, const Vec<D>& m, const la::V& e, const la::V& mag, double f) { for (uint16 i = 0; i < D; i++) near(k, m[i], e[i], f * EPS * mag[i], Str() << "dim " << D << " at " << i); }

template <uint16 D> void vecs(Rng& r) {
  double sc = r.logrange(1e-8, 1e8), s = r.range(-5, 5); ev("vectors");
  Vec<D> a = rv<D>(r, sc), b = rv<D>(r, sc); la::V A = L(a), B = L(b);
  Vec<D> z; for (uint16 i = 0; i < D; i++) check("vec.zero", z[i] == 0.0, "a new vector isn't zero");
  check("vec.size", a.size() == D, "size");
  same("vec.plus", a + b, A + B, A, 0); same("vec.minus", a - b, A - B, A, 0); same("vec.neg", -a, A * -1.0, A, 0); same("vec.scale", a * s, A * s, A, 0);
  double d = a * b; near("vec.dot", d, la::dot(A, B), 4 * D * EPS * la::dot(absV(A), absV(B)), "dot product");
  near("vec.length", a.qlength(), la::dot(A, A), 4 * D * EPS * la::dot(A, A)); near("vec.length", a.length(), std::sqrt(la::dot(A, A)), 4 * D * EPS * std::sqrt(la::dot(A, A)));
  Vec<D> c = a; Vec<D>& cr = (c += b); same("vec.add", c, A + B, A, 0); check("vec.ref", &cr == &c, "result of +=");
  Vec<D>& ce = (c = a); same("vec.assign", c, A, A, 0); check("vec.ref", &ce == &c, "result of ="); same("vec.arg", a, A, A, 0); same("vec.arg", b, B, B, 0);
  c += c; same("vec.self", c, A * 2.0, A, 0); c = a; c = c; same("vec.self", c, A, A, 0);
  for (uint16 i = 0; i < D; i++) check("vec.ptr", a.ptr()[i] == a[i], "storage order");
  // compare
  double eps = r.logrange(1e-10, 1e-2) * sc; uint16 k = (uint16)r.irange(0, D - 1);
  Vec<D> e = a; check("vec.compare", a.compare(e, eps) && a.compare(e, 0.0), "equal vectors"); for (uint16 i = 0; i < D; i++) e[i] += eps * r.range(-0.9, 0.9); check("vec.compare", a.compare(e, eps), "close vectors");
  e[k] = a[k] + r.sign() * eps * r.range(1.1, 50); check("vec.compare", !a.compare(e, eps), Str() << "vectors different at " << k << " of " << D); e = a; (r.chance(0.5) ? e : c)[k] = NAN; c = r.chance(0.5) ? c : a; if (e[k] != e[k] || c[k] != c[k]) check("vec.compare.nan", !c.compare(e, eps), "NaN accepted");
  // text
  { std::stringstream t; t.precision(17); t << a; Vec<D> q; q.simple_read(t); same("vec.text", q, A, A, 0); std::istringstream u(a.toString()); std::string w; uint16 n = 0; while (std::getline(u, w, ',')) { if (n < D) near("vec.toString", strtod(w.c_str(), 0), A[n], 6e-6 * std::fabs(A[n]), "printed value"); n++; } check("vec.toString", n == D, "count of printed values"); }
  a.zero(); same("vec.zero", a, la::V(D), A, 0);
}
template <uint16 A, uint16 B> void mats(Rng& r) {
  double sc = r.logrange(1e-8, 1e8), s = r.range(-5, 5); ev("matrices");
  Mat<A, B> a = rm<A, B>(r, sc), b = rm<A, B>(r, sc); la::M X = L(a), Y = L(b);
  check("mat.size", a.dM() == A && a.dN() == B, "size");
  same("mat.plus", a + b, X + Y, X, 0); same("mat.minus", a - b, X - Y, X, 0); same("mat.neg", -a, X * -1.0, X, 0); same("mat.scale", a * s, X * s, X, 0); same("mat.transpose", a.transpose(), X.t(), X.t(), 0);
  Mat<A, B> c = a; c += b; same("mat.add", c, X + Y, X, 0); c = a; same("mat.assign", c, X, X, 0); c += c; same("mat.self", c, X * 2.0, X, 0); c = c; same("mat.self", c, X * 2.0, X, 0); same("mat.arg", a, X, X, 0); same("mat.arg", b, Y, Y, 0);
  for (uint16 i = 0; i < A; i++) for (uint16 j = 0; j < B; j++) check("mat.ptr", a.ptr()[i * B + j] == X(i, j), "storage order");
  Vec<B> v = rv<B>(r, 1); same("mat.vec", a * v, X * L(v), absM(X) * absV(L(v)), 4 * B);
  Vec<A> w = rv<A>(r, 1);
  { double f = r.chance(0.3) ? 1.0 : r.range(-4, 4); Vec<A> R0 = rv<A>(r, sc), R = R0; matBVprod(a, v, f, R); la::V e = L(R0) + (X * L(v)) * f, mg = absV(L(R0)) + (absM(X) * absV(L(v))) * std::fabs(f); same("prod.BV", R, e, mg, 4 * (B + 2)); }
  { double f = r.chance(0.3) ? 1.0 : r.range(-4, 4); Vec<B> R0 = rv<B>(r, sc), R = R0; matBTVprod(a, w, f, R); la::V e = L(R0) + (X.t() * L(w)) * f, mg = absV(L(R0)) + (absM(X).t() * absV(L(w))) * std::fabs(f); same("prod.BTV", R, e, mg, 4 * (A + 2)); }
  double eps = r.logrange(1e-10, 1e-2) * sc; uint16 k = (uint16)r.irange(0, A - 1), l = (uint16)r.irange(0, B - 1);
  Mat<A, B> e = a; check("mat.compare", a.compare(e, eps) && a.compare(e, 0.0), "equal matrices"); e[k][l] += 0.9 * eps; check("mat.compare", a.compare(e, eps), "close matrices"); e[k][l] = a[k][l] + r.sign() * eps * r.range(1.1, 50); check("mat.compare", !a.compare(e, eps), "different matrices"); e[k][l] = NAN; check("mat.compare.nan", !a.compare(e, eps) && !e.compare(a, eps), "NaN accepted");
  { std::stringstream t; t.precision(17); for (double x : X.a) t << x << (r.chance(0.3) ? "\n" : " "); Mat<A, B> q; q.simple_read(t); same("mat.text", q, X, X, 0); std::ostringstream o; o.precision(17); o << a; std::string u = o.str(); for (auto& ch : u) if (ch == '[' || ch == ']') ch = ' '; std::istringstream in(u); Mat<A, B> p; p.simple_read(in); check("mat.print", (bool)in, "printed matrix is incomplete"); same("mat.print", p, X, X, 0);
    u = a.toString(); for (auto& ch : u) if (ch == '[' || ch == ']' || ch == ',') ch = ' '; std::istringstream in2(u); p.simple_read(in2); same("mat.toString", p, X, absM(X), 6e-6 / EPS); }
  c.zero(); same("mat.zero", c, la::M(A, B), X, 0);
}
template <uint16 A, uint16 B, uint16 C> void prods(Rng& r) {
  double sc = r.logrange(1e-4, 1e4), f = r.chance(0.3) ? 1.0 : r.range(-4, 4); ev("products");
  Mat<A, B> a = rm<A, B>(r, sc); Mat<B, C> b = rm<B, C>(r, 1); Mat<A, C> R0 = rm<A, C>(r, sc), R = R0; la::M X = L(a), Y = L(b);
  same("prod.mat", a * b, X * Y, absM(X) * absM(Y), 4 * B);
  matABprod(a, b, f, R); same("prod.AB", R, L(R0) + (X * Y) * f, absM(L(R0)) + (absM(X) * absM(Y)) * std::fabs(f), 4 * (B + 2));
  Mat<B, A> at = a.transpose(); R = R0; matATBprod(at, b, f, R); same("prod.ATB", R, L(R0) + (X * Y) * f, absM(L(R0)) + (absM(X) * absM(Y)) * std::fabs(f), 4 * (B + 2));
  same("prod.arg", a, X, X, 0); same("prod.arg", b, Y, Y, 0); same("prod.arg", at, X.t(), X.t(), 0);
}
template <uint16 A, uint16 B> void syms(Rng& r) {
  double sc = r.logrange(1e-4, 1e4), f = r.chance(0.3) ? 1.0 : r.range(-4, 4); ev("symmetric");
  MatSym<A> d = rs<A>(r, sc), d2 = rs<A>(r, sc); la::M D = L(d), D2 = L(d2);
  check("sym.length", d.getLength() == A * (A + 1) / 2 && d.dM() == A && d.dN() == A, "size");
  size_t q = 0; for (uint16 i = 0; i < A; i++) for (uint16 j = i; j < A; j++, q++) { check("sym.comp", &d.comp(i, j) == &d.comp(j, i) && &d.comp(i, j) == d.ptr() + q, Str() << "component " << i << "," << j << " of " << A); }
  same("sym.toMat", d.toMat(), D, D, 0); MatSym<A> e = d; e += d2; same("sym.add", e.toMat(), D + D2, D, 0); e = d; e += e; same("sym.add", e.toMat(), D * 2.0, D, 0);
  Vec<A> v = rv<A>(r, 1), R0 = rv<A>(r, sc), R = R0; matBVprod(d, v, f, R); same("sym.BV", R, L(R0) + (D * L(v)) * f, absV(L(R0)) + (absM(D) * absV(L(v))) * std::fabs(f), 4 * (A + 2));
  Mat<A, B> b = rm<A, B>(r, 1); la::M X = L(b); MatSym<B> S0 = rs<B>(r, sc), S = S0; matBTDBprod(b, d, f, S); la::M AX = absM(X); same("sym.BTDB", S.toMat(), L(S0) + (X.t() * (D * X)) * f, absM(L(S0)) + (AX.t() * (absM(D) * AX)) * std::fabs(f), 4 * (2 * A + 4));
  same("sym.arg", b, X, X, 0); same("sym.arg", d.toMat(), D, D, 0);
  double eps = r.logrange(1e-10, 1e-2) * sc; uint16 k = (uint16)r.irange(0, A - 1), l = (uint16)r.irange(0, A - 1);
  e = d; check("sym.compare", d.compare(e, eps) && d.compare(e, 0.0), "equal"); e.comp(k, l) += 0.9 * eps; check("sym.compare", d.compare(e, eps), "close"); e.comp(k, l) = d.comp(k, l) + r.sign() * eps * r.range(1.1, 50); check("sym.compare", !d.compare(e, eps), "different"); e.comp(k, l) = NAN; check("sym.compare.nan", !d.compare(e, eps) && !e.compare(d, eps), "NaN accepted");
  std::stringstream t; t.precision(17); for (size_t i = 0; i < d.getLength(); i++) t << d.ptr()[i] << " "; MatSym<A> p; p.simple_read(t); same("sym.text", p.toMat(), D, D, 0);
  d.zero(); same("sym.zero", d.toMat(), la::M(A, A), D, 0);
}
static long double detL(const la::M& m, long double* mag) { // expansion with the sum of magnitudes
  int n = m.r; if (n == 1) { *mag = fabsl(m(0, 0)); return m(0, 0); }
  long double s = 0, g = 0; for (int j = 0; j < n; j++) { la::M c(n - 1, n - 1); for (int i = 1; i < n; i++) for (int k = 0, q = 0; k < n; k++) if (k != j) c(i - 1, q++) = m(i, k); long double mg; s += (j % 2 ? -1 : 1) * m(0, j) * detL(c, &mg); g += fabsl(m(0, j)) * mg; }
  *mag = g; return s;
}
template <uint16 A> struct Cut { static void go(Rng& r, Mat<A, A>& m, const la::M& X) { uint16 i = (uint16)r.irange(0, A - 1), j = (uint16)r.irange(0, A - 1); la::M c(A - 1, A - 1); for (int p = 0, y = 0; p < A; p++) if (p != i) { for (int q = 0, x = 0; q < A; q++) if (q != j) c(y, x++) = X(p, q); y++; } same("square.cut", m.cross_cut(i, j), c, c, 0); } };
template <> struct Cut<1> { static void go(Rng&, Mat<1, 1>&, const la::M&) {} };
template <uint16 A> void squares(Rng& r) {
  double sc = r.logrange(1e-6, 1e6); ev("squares"); Mat<A, A> m = rm<A, A>(r, sc);
  if (r.chance(0.1)) { for (uint16 j = 0; j < A; j++) m[A - 1][j] = 2 * m[0][j]; } // singular
  la::M X = L(m); long double mg; long double d = detL(X, &mg);
  double got = m.det(); near("square.det", got, (double)d, 8 * A * EPS * (double)mg, Str() << "determinant " << A);
  Mat<A, A> I; I.Identity(); same("square.identity", I, la::M::eye(A), la::M::eye(A), 0); Cut<A>::go(r, m, X);
  if (std::fabs((double)d) > 1e-6 * (double)mg && got != 0) { Mat<A, A> v = m.inv(got); // entries are cofactors / det
    la::M e, one = la::M::eye(A); if (la::solveMulti(X, one, e)) { double rel = (double)mg / std::fabs((double)d), t = e.maxAbs() * 40 * A * rel; la::M mag(A, A, t); same("square.inv", v, e, mag, 4); ev("inverses"); } same("square.arg", m, X, X, 0); }
}
static void jacobi(la::M m, long double* w) { // eigenvalues of a symmetric 3x3 matrix
  long double a[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[i][j] = m(i, j);
  for (int s = 0; s < 60; s++) for (int p = 0; p < 2; p++) for (int q = p + 1; q < 3; q++) if (a[p][q] != 0) { long double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), sn = t * c; if (!std::isfinite((double)t)) t = 0, c = 1, sn = 0;
    for (int k = 0; k < 3; k++) { long double x = a[k][p], y = a[k][q]; a[k][p] = c * x - sn * y; a[k][q] = sn * x + c * y; } for (int k = 0; k < 3; k++) { long double x = a[p][k], y = a[q][k]; a[p][k] = c * x - sn * y; a[q][k] = sn * x + c * y; } a[p][q] = a[q][p] = 0; }
  for (int i = 0; i < 3; i++) w[i] = a[i][i]; std::sort(w, w + 3, [](long double x, long double y) { return x > y; });
}
static void eigs(Rng& r) {
  double sc = r.logrange(1e-6, 1e8); Mat<3, 3> m; int kind = (int)r.irange(0, 6); la::M Q = la::M::eye(3);
  if (kind == 0) { for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) m[i][j] = m[j][i] = val(r, sc); }
  else { double w[3]; for (auto& x : w) x = val(r, sc); if (kind >= 2) w[1] = w[0]; if (kind == 3) w[2] = w[0]; if (kind == 4) w[1] = w[0] * (1 + r.logrange(1e-15, 1e-3)); if (kind == 5) w[1] = w[0] = 0; if (kind == 6) w[2] = w[0] * (1 - r.logrange(1e-15, 1e-3));
    if (r.chance(0.7)) for (int k = 0; k < 3; k++) { double t = r.range(-4, 4); la::M G = la::M::eye(3); int p = k, q = (k + 1) % 3; G(p, p) = G(q, q) = std::cos(t); G(p, q) = -(G(q, p) = std::sin(t)); Q = Q * G; }
    for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += Q(i, k) * Q(j, k) * w[k]; m[i][j] = m[j][i] = s; } }
  la::M X = L(m); long double w[3]; jacobi(X, w); double s = (double)std::max(fabsl(w[0]), fabsl(w[2])), gap = (double)std::min(w[0] - w[1], w[1] - w[2]);
  Vec<3> e = m.eigenvalues(); ev("eigenvalues"); mon::note(Str() << "eigenvalues kind " << kind << " matrix\n" << m.toString());
  double tol = s > 0 && gap > 0.1 * s ? 1e-11 * s : 6e-5 * s; if (s > 0 && gap <= 1e-6 * s) ev("multiple_eigenvalues");
  for (uint16 i = 0; i < 3; i++) near(gap > 0.1 * s ? "eigen.distinct" : "eigen.multiple", e[i], (double)w[i], tol, Str() << "eigenvalue " << i);
  check("eigen.order", e[0] >= e[1] && e[1] >= e[2], "eigenvalues aren't in descending order"); same("eigen.arg", m, X, X, 0);
}
template <uint16 A, uint16 B> void dmats(Rng& r) {
  ev("dynamic_matrices"); uint16 p = (uint16)r.irange(1, A), q = (uint16)r.irange(1, B); dMat d(p, q); la::M X(p, q);
  auto eq = [&](dMat& m, const la::M& e, const char* k) { check(std::string("dmat.") + k, m.dM() == e.r && m.dN() == e.c, "size"); if (m.dM() != e.r || m.dN() != e.c) return; for (uint16 i = 0; i < e.r; i++) for (uint16 j = 0; j < e.c; j++) { double x = m[i][j]; check(std::string("dmat.") + k, x == e(i, j) && m.ptr()[i * e.c + j] == x, Str() << "entry " << i << "," << j << " of " << e.r << "x" << e.c << ": " << x << " instead of " << e(i, j)); } };
  eq(d, X, "new"); for (uint16 i = 0; i < p; i++) for (uint16 j = 0; j < q; j++) d[i][j] = X(i, j) = val(r, 10);
  for (int step = 0; step < 8; step++) switch (r.irange(0, 8)) {
    case 0: { dMat c(d); eq(c, X, "copy"); c[0][0] = 77; eq(d, X, "copy"); break; }
    case 1: { dMat c((uint16)r.irange(0, 4), (uint16)r.irange(0, 4)); c = d; eq(c, X, "assign"); c[p - 1][q - 1] = 77; eq(d, X, "assign"); break; }
    case 2: { dMat& me = d; d = me; eq(d, X, "self"); break; }
    case 3: { Mat<A, B> m = d.template toMat<A, B>(); for (uint16 i = 0; i < p; i++) for (uint16 j = 0; j < q; j++) check("dmat.toMat", m[i][j] == X(i, j), "entry"); break; }
    case 4: { uint16 col = (uint16)r.irange(0, q - 1); Vec<A> v = d.template toVec<A>(col); for (uint16 i = 0; i < p; i++) check("dmat.toVec", v[i] == X(i, col), "entry"); break; }
    case 5: { std::ostringstream o; o.precision(17); o << d; std::string u = o.str(); for (auto& ch : u) if (ch == '[' || ch == ']') ch = ' '; std::istringstream in(u); double x; size_t n = 0; while (in >> x) { if (n < X.a.size()) check("dmat.print", x == X.a[n], "printed value"); n++; } check("dmat.print", n == X.a.size(), Str() << "printed " << n << " of " << X.a.size() << " values"); break; }
    case 6: { p = (uint16)r.irange(1, A); q = (uint16)r.irange(1, B); d.resize(p, q); X = la::M(p, q); eq(d, X, "resize"); for (uint16 i = 0; i < p; i++) for (uint16 j = 0; j < q; j++) d[i][j] = X(i, j) = val(r, 10); break; }
    case 7: { dMat e(A + (uint16)r.irange(0, 3), B + (uint16)r.irange(0, 3)); la::M E(e.dM(), e.dN()); Mat<A, B> m = rm<A, B>(r, 3); e.cpMat(m); E.put(0, 0, L(m)); eq(e, E, "cpMat"); Vec<A> v = rv<A>(r, 3); uint16 col = (uint16)r.irange(0, E.c - 1); e.cpVec(v, col); for (int i = 0; i < A; i++) E(i, col) = v[i]; eq(e, E, "cpVec"); e.zero(); eq(e, la::M(E.r, E.c), "zero"); break; }
    case 8: { ev("dynamic_matrices_listed"); double z[6]; for (auto& x : z) x = val(r, 10); int w = (int)r.irange(0, 3); uint16 mm = w == 0 ? 2 : w == 1 ? 3 : w == 2 ? 6 : 1, nn = (uint16)(6 / mm); la::M E(mm, nn); for (int i = 0; i < 6; i++) E.a[i] = z[i];
      dMat e(mm, nn, z[0], z[1], z[2], z[3], z[4], z[5]); eq(e, E, "listed"); dMat f(mm, nn); f.fill(z[0], z[1], z[2], z[3], z[4], z[5]); eq(f, E, "fill"); break; }
  }
  eq(d, X, "end");
}
// histories of dynamic vectors that own memory or point into other vectors
struct Buf { std::vector<double> v; };
struct Hnd { std::unique_ptr<dVec> d; std::shared_ptr<Buf> b; uint32 s = 0, n = 0; bool own = false; };
static void hist(Rng& r) {
  std::vector<Hnd> H(r.irange(2, 7)); for (auto& h : H) h.d.reset(new dVec); std::string log; int steps = (int)r.irange(5, 60); ev("vector_histories");
  auto g = [&](Hnd& h, uint32 i) -> double& { return h.b->v[h.s + i]; };
  auto drop = [&](Hnd& h) { // the memory of h is about to go: nobody may point to it any more
    if (h.own) for (auto& o : H) if (&o != &h && o.b == h.b) { o.d->clear(); o.b.reset(); o.n = 0; } };
  auto fresh = [&](Hnd& h, std::vector<double> v) { h.b.reset(new Buf); h.b->v = v; h.s = 0; h.n = (uint32)v.size(); h.own = true; };
  auto none = [&](Hnd& h) { h.b.reset(); h.n = 0; h.own = false; };
  auto vec = [&](Hnd& h) { std::vector<double> v; for (uint32 i = 0; i < h.n; i++) v.push_back(g(h, i)); return v; };
  auto eqv = [&](const char* k, dVec& d, const std::vector<double>& v) { if (!check(std::string("dvec.") + k, d.size() == v.size() && d.isInit(), "size of a result")) return; for (uint32 i = 0; i < v.size(); i++) check(std::string("dvec.") + k, d[i] == v[i], "value of a result"); };
  for (int t = 0; t < steps; t++) {
    size_t i = r.next() % H.size(), j = r.next() % H.size(); for (int q = 0; q < 4 && r.chance(0.6) && !(H[i].b && H[i].b == H[j].b && i != j); q++) { i = r.next() % H.size(); j = r.next() % H.size(); } Hnd &h = H[i], &o = H[j]; int op = (int)r.irange(0, 19); log += Str() << op << "(" << i << "," << j << ") "; mon::note(log);
    switch (op) {
    case 0: case 1: if (!h.b || r.chance(0.1)) { drop(h); uint32 n = (uint32)r.irange(0, 12); double v = r.chance(0.3) ? 0 : r.range(-9, 9); if (op == 0) { if (v == 0) h.d->reinit(n); else h.d->reinit(n, v); } else { h.d.reset(); h.d.reset(new dVec(n, v)); } fresh(h, std::vector<double>(n, v)); break; }
    case 2: case 3: if (o.b && &o != &h && !(h.own && o.b == h.b)) { drop(h); uint32 s = (uint32)r.irange(0, o.n), n = (uint32)r.irange(0, o.n - s); if (r.chance(0.5)) { n = (uint32)std::min(r.irange(2, 4), (long)o.n); s = (uint32)r.irange(0, o.n - n); } if (op == 2) h.d->reinit(*o.d, s, n); else { h.d.reset(); h.d.reset(new dVec(*o.d, s, n)); } h.b = o.b; h.s = o.s + s; h.n = n; h.own = false; ev("views"); } break;
    case 4: if ((o.b || r.chance(0.2)) && &o != &h && !(h.own && o.b == h.b)) { drop(h); h.d.reset(new dVec(*o.d)); if (o.b) fresh(h, vec(o)); else none(h); ev("copies"); } break;
    case 5: if (r.chance(0.4) && &o != &h && !(h.own && o.b == h.b)) { drop(h); h.d.reset(new dVec(std::move(*o.d))); h.b = o.b; h.s = o.s; h.n = o.n; h.own = o.own; none(o); check("dvec.moved", !o.d->isInit() && o.d->size() == 0, "moved-from vector isn't empty"); ev("moves"); } break;
    case 6: case 7: case 8: if (!o.b) { if (&o != &h && r.chance(0.2)) { drop(h); *h.d = *o.d; none(h); } } // assignment
      else if (h.b && h.n == o.n) { bool ov = h.b == o.b && h.s != o.s && h.n; std::vector<double> v = vec(o); dVec& q = (*h.d = *o.d); check("dvec.ref", &q == h.d.get(), "result of ="); for (uint32 k = 0; k < h.n; k++) g(h, k) = v[k]; ev(ov ? "overlapping_assignments" : "assignments"); }
      else if (!h.b || h.own) { bool part = h.b && h.b == o.b; std::vector<double> v = vec(o); *h.d = *o.d; Hnd old; old.b = h.b; drop(h); fresh(h, v); if (part) ev("assigned_from_own_part"); ev("resizing_assignments"); } break;
    case 9: case 10: if (h.b && o.b && h.n == o.n && (h.b != o.b || h.s == o.s)) { std::vector<double> v = vec(o); dVec& q = op == 9 ? (*h.d += *o.d) : (*h.d -= *o.d); check("dvec.ref", &q == h.d.get(), "result of +="); for (uint32 k = 0; k < h.n; k++) g(h, k) += op == 9 ? v[k] : -v[k]; ev("increments"); } break;
    case 11: if (h.b && o.b && h.n == o.n) { std::vector<double> a = vec(h), b = vec(o), c; for (uint32 k = 0; k < h.n; k++) c.push_back(a[k] + b[k]); dVec x = *h.d + *o.d; eqv("plus", x, c); for (uint32 k = 0; k < h.n; k++) c[k] = a[k] - b[k]; dVec y = *h.d - *o.d; eqv("minus", y, c); ev("sums"); } break;
    case 12: if (h.b) { double s = r.range(-3, 3); if (s == 0) s = 1; std::vector<double> a = vec(h), c = a; for (auto& x : c) x = -x; dVec x = -*h.d; eqv("neg", x, c); c = a; for (auto& z : c) z *= s; dVec y = *h.d * s; eqv("scale", y, c); dVec z = s * *h.d; eqv("scale", z, c); c = a; for (auto& q : c) q /= s; dVec w = *h.d / s; eqv("div", w, c); ev("sums"); } break;
    case 13: if (h.b && h.n) { uint32 k = (uint32)r.irange(0, h.n - 1); double v = val(r, 1e3); (*h.d)[k] = v; g(h, k) = v; } break;
    case 14: if (h.b) { double v = r.chance(0.5) ? 0 : r.range(-2, 2); if (v == 0) h.d->zero(); else h.d->fill(v); for (uint32 k = 0; k < h.n; k++) g(h, k) = v; } break;
    case 15: if (r.chance(0.3)) { drop(h); h.d->clear(); none(h); break; }
    case 16: if (h.b && o.b) { bool e = true; double th = r.chance(0.3) ? 0 : r.logrange(1e-6, 1), worst = 0; std::vector<double> a = vec(h), b = vec(o); if (a.size() != b.size()) e = false; else for (size_t k = 0; k < a.size(); k++) { worst = std::max(worst, std::fabs(a[k] - b[k])); e = e && std::fabs(a[k] - b[k]) <= th; }
        check("dvec.compare", h.d->compare(*o.d, th) == e, Str() << "comparison of vectors with distance " << worst << " threshold " << th); if (h.n) { dVec q(*h.d); uint32 k = (uint32)r.irange(0, h.n - 1); q[k] += 1; check("dvec.compare", !h.d->compare(q, 0.9), "different vectors"); check("dvec.compare", h.d->compare(q, 1.1), "close vectors"); q[k] = NAN; check("dvec.compare.nan", !h.d->compare(q, 1) && !q.compare(*h.d, 1), "NaN accepted"); } ev("comparisons"); } break;
    case 18: case 19: if (o.b && o.n >= 2) { uint32 n = (uint32)r.irange(1, o.n), s1 = (uint32)r.irange(0, o.n - n), s2 = (uint32)r.irange(0, o.n - n); dVec a(*o.d, s1, n), b; b.reinit(*o.d, s2, n); std::vector<double> v; for (uint32 k = 0; k < n; k++) v.push_back(g(o, s2 + k)); a = b; for (uint32 k = 0; k < n; k++) g(o, s1 + k) = v[k]; if (s1 != s2) ev("overlapping_assignments"); } break;
    case 17: if (h.b) { std::stringstream s; auto pr = s.precision(); auto fl = s.flags(); h.d->writeTextFormat(s); check("dvec.stream", s.precision() == pr && s.flags() == fl, "settings of the stream changed"); dVec q(3, 5.0); q.readTextFormat(s); check("dvec.text", (bool)s, "text is incomplete"); eqv("text", q, vec(h)); ev("texts"); } break;
    }
    for (size_t k = 0; k < H.size(); k++) { Hnd& x = H[k]; check("dvec.init", x.d->isInit() == (bool)x.b, Str() << "vector " << k << " after " << log); if (!check("dvec.size", x.d->size() == x.n, Str() << "vector " << k << " after " << log)) return; for (uint32 q = 0; q < x.n; q++) if (!check("dvec.value", (*x.d)[q] == g(x, q), Str() << "vector " << k << " entry " << q << ": " << (*x.d)[q] << " instead of " << g(x, q) << " after " << log)) return; ev("vector_states"); }
  }
  mon::sig(log); while (!H.empty()) { size_t k = r.next() % H.size(); drop(H[k]); H.erase(H.begin() + k); }
}
static void run(Rng& r, uint64_t c) {
  int k = (int)(c % 8); if (k < 6) mon::sig(Str() << k << "." << r.s); mon::note(Str() << "kind " << k);
  switch (k) {
  case 0: vecs<1>(r); vecs<2>(r); vecs<3>(r); vecs<4>(r); vecs<6>(r); vecs<9>(r); vecs<24>(r); break;
  case 1: mats<1, 1>(r); mats<1, 4>(r); mats<3, 1>(r); mats<2, 3>(r); mats<3, 3>(r); mats<6, 24>(r); mats<9, 8>(r); { Vec<5> v = rv<5>(r, 3); Mat<5, 1> m; m = v; for (uint16 i = 0; i < 5; i++) check("mat.column", m[i][0] == v[i], "column assigned from a vector"); } break;
  case 2: prods<1, 1, 1>(r); prods<2, 3, 4>(r); prods<3, 3, 3>(r); prods<1, 5, 2>(r); prods<6, 6, 24>(r); prods<4, 1, 3>(r); break;
  case 3: syms<1, 1>(r); syms<2, 3>(r); syms<3, 2>(r); syms<6, 24>(r); syms<4, 4>(r); syms<1, 6>(r); syms<6, 1>(r); break;
  case 4: squares<1>(r); squares<2>(r); squares<3>(r); squares<4>(r); squares<5>(r); break;
  case 5: for (int i = 0; i < 8; i++) eigs(r); break;
  case 6: mon::sig(Str() << "d" << r.s); dmats<1, 1>(r); dmats<3, 3>(r); dmats<6, 4>(r); dmats<2, 7>(r); break;
  case 7: hist(r); break;
  }
}
mon::Harness mon::harness() { return {"C19", 24000, 800000, run, nullptr}; }
