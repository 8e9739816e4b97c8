// C20: isoparametric interpolation, gradients and quadrature are exact for the polynomials they must integrate.
#include "fe.h"
#include "la.h"
#include "elements/isoparametric.h"
using namespace fe;
using mon::check; using mon::near; using mon::Str; using mon::ev;
template <class B> struct Iso : B { void pre() override {} void buildK() override {} void buildC() override {} void buildM() override {} void update() override {} };
struct Trait1 { typedef Iso<ElementIsoParamLINE> E; enum { D = 1, N = 2 }; static int c(int n, int) { return n ? 1 : -1; } static math::Vec<2> f(E& e, const double* x) { return e.formFunc(x[0]); } static math::Mat<2, 1> d(E& e, const double* x) { return e.formFuncDeriv(x[0]); } };
struct Trait2 { typedef Iso<ElementIsoParamQUAD> E; enum { D = 2, N = 4 }; static int c(int n, int k) { static const int t[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}; return t[n][k]; } static math::Vec<4> f(E& e, const double* x) { return e.formFunc(x[0], x[1]); } static math::Mat<4, 2> d(E& e, const double* x) { return e.formFuncDeriv(x[0], x[1]); } };
struct Trait3 { typedef Iso<ElementIsoParamHEXAHEDRON> E; enum { D = 3, N = 8 }; static int c(int n, int k) { static const int t[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}}; return t[n][k]; } static math::Vec<8> f(E& e, const double* x) { return e.formFunc(x[0], x[1], x[2]); } static math::Mat<8, 3> d(E& e, const double* x) { return e.formFuncDeriv(x[0], x[1], x[2]); } };
typedef long double ld;
template <class T> struct Geo { // the same element in long double
  std::vector<std::array<ld, 3>> p;
  ld N(int n, const ld* x) const { ld v = 1; for (int k = 0; k < T::D; k++) v *= 0.5L * (1 + T::c(n, k) * x[k]); return v; }
  ld dN(int n, int j, const ld* x) const { ld v = 1; for (int k = 0; k < T::D; k++) v *= k == j ? 0.5L * T::c(n, k) : 0.5L * (1 + T::c(n, k) * x[k]); return v; }
  void J(const ld* x, ld (*j)[3]) const { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { j[a][b] = 0; if (a < T::D) for (int n = 0; n < T::N; n++) j[a][b] += dN(n, a, x) * p[n][b]; } }
  ld det(const ld* x) const { ld j[3][3]; J(x, j); if (T::D == 1) return sqrtl(j[0][0] * j[0][0] + j[0][1] * j[0][1] + j[0][2] * j[0][2]); if (T::D == 2) return j[0][0] * j[1][1] - j[0][1] * j[1][0]; return j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0]) + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0]); }
};
// Gauss rule with 5 points on [-1,1], by Newton iteration on the Legendre polynomial
static void gauss(int n, std::vector<ld>& x, std::vector<ld>& w) { x.resize(n); w.resize(n); for (int i = 0; i < n; i++) { ld z = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), pp = 1; for (int it = 0; it < 60; it++) { ld p1 = 1, p2 = 0; for (int j = 0; j < n; j++) { ld p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); } pp = n * (z * p1 - p2) / (z * z - 1); z -= p1 / pp; } x[i] = z; w[i] = 2 / ((1 - z * z) * pp * pp); } }
template <class T> struct NX { static void go(typename T::E& e, Geo<T>& g, mon::Rng& r, uint16 np, const ld* x, double sc) { // gradients in global directions: exact for linear fields, and equal to J^-1 dN
    ld j[3][3]; g.J(x, j); double a[3] = {r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)}, grad[3] = {0, 0, 0}, mag = 0; for (int i = 0; i < T::D; i++) { double s = 0; for (int n = 0; n < T::N; n++) { s += e.NiXj[np][n][i]; mag = std::max(mag, std::fabs(e.NiXj[np][n][i])); double u = 0; for (int b = 0; b < T::D; b++) u += a[b] * (double)g.p[n][b]; grad[i] += e.NiXj[np][n][i] * u; } near("gradient.constant", s, 0, 1e-12 * (mag + 1e-300) * T::N, "gradient of a constant field"); }
    for (int i = 0; i < T::D; i++) near("gradient.linear", grad[i], a[i], 1e-11 * mag * sc * T::N * 6, Str() << "gradient of a linear field, direction " << i << " point " << np);
    for (int n = 0; n < T::N; n++) for (int k = 0; k < T::D; k++) { ld s = 0; for (int i = 0; i < T::D; i++) s += j[k][i] * e.NiXj[np][n][i]; near("gradient.chain", (double)s, (double)g.dN(n, k, x), 1e-11 * mag * sc * 6, Str() << "gradient of form function " << n); } ev("gradients"); }
  static bool bad(typename T::E& e, uint16 np, ld d) { near("jacobian", e.det[np], (double)d, 1e-12 * std::fabs((double)d) * 50, "Jacobian"); return e.det.size() != e.nOfIntPoints() || e.NiXj.size() != e.nOfIntPoints(); } };
template <> struct NX<Trait1> { static void go(Trait1::E&, Geo<Trait1>&, mon::Rng&, uint16, const ld*, double) {} static bool bad(Trait1::E& e, uint16, ld d) { near("jacobian", e.det, (double)d, 1e-13 * (double)d, "Jacobian"); return false; } };

template <class T> void element(mon::Rng& r) {
  FEStorage s; s.createNodes(T::N + 3); auto* e = new typename T::E; s.addElement(e); auto perm = r.perm(T::N + 3, 1); for (uint16 i = 0; i < T::N; i++) e->getNodeNumber(i) = perm[i];
  int reps = (int)r.irange(1, 3);
  for (int rep = 0; rep < reps; rep++) {
    Geo<T> g; g.p.resize(T::N); bool affine = r.chance(0.3); double sc = r.logrange(1e-3, 1e3), A[3][3], sh[3];
    do { for (auto& row : A) for (auto& v : row) v = r.range(-1, 1); double det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); double d2 = A[0][0] * A[1][1] - A[0][1] * A[1][0]; if (T::D == 1 || (T::D == 2 ? d2 : det) > 0.15) break; } while (true);
    for (auto& v : sh) v = r.range(-3, 3);
    double amp = affine || T::D == 1 ? 0 : r.range(0.02, 0.18);
    for (int n = 0; n < T::N; n++) for (int b = 0; b < 3; b++) { ld v = sh[b]; for (int k = 0; k < T::D; k++) v += A[k][b] * T::c(n, k); double q = (double)v; if (T::D != 2 || b < 2) q += amp * r.range(-0.3, 0.3); if (T::D == 2 && b == 2) q = r.chance(0.5) ? 0 : sh[2]; g.p[n][b] = q * sc; q *= sc; g.p[n][b] = q; s.getNode(perm[n]).pos[b] = q; }
    // orientation must be positive everywhere
    std::vector<ld> gx, gw; gauss(5, gx, gw); bool ok = true; ld vol = 0, dmin = 1e300L; std::array<ld, 3> first{{0, 0, 0}}; int cnt = 1; for (int k = 0; k < T::D; k++) cnt *= 5;
    for (int q = 0; q < cnt; q++) { ld x[3] = {gx[q % 5], gx[q / 5 % 5], gx[q / 25 % 5]}, w = 1; for (int k = 0; k < T::D; k++) w *= gw[k == 0 ? q % 5 : k == 1 ? q / 5 % 5 : q / 25 % 5]; ld d = g.det(x); dmin = std::min(dmin, d); vol += w * d; for (int b = 0; b < 3; b++) { ld c = 0; for (int n = 0; n < T::N; n++) c += g.N(n, x) * g.p[n][b]; first[b] += w * d * c; } }
    for (int n = 0; n < T::N; n++) { ld x[3]; for (int k = 0; k < T::D; k++) x[k] = T::c(n, k); dmin = std::min(dmin, g.det(x)); }
    ld mean = vol / (T::D == 1 ? 2 : T::D == 2 ? 4 : 8); ok = dmin > 0.05L * mean; if (!ok) { ev("skipped_distorted"); continue; }
    static const std::vector<int> orders = {1, 2, 3, 2, 3, 0, 4, 9, 1}; int io = r.pick(orders), order = std::min(3, std::max(1, io)); e->setIntegrationOrder((uint16)io); e->makeJacob(); std::string w = Str() << T::D << "D order " << io << (affine ? " affine" : "") << " size " << sc; mon::note(w);
    int np = 1; for (int k = 0; k < T::D; k++) np *= order;
    if (!check("points", e->nOfIntPoints() == np, Str() << w << ": " << e->nOfIntPoints() << " integration points instead of " << np)) return;
    double L = 0; for (auto& q : g.p) for (int b = 0; b < 3; b++) L = std::max(L, (double)fabsl(q[b]));
    // quadrature: every monomial of degree < 2*order in each local direction; weights positive, points inside
    ld jw = 0; std::array<ld, 3> fm{{0, 0, 0}}; std::map<std::vector<int>, ld> mom;
    for (uint16 q = 0; q < np; q++) {
      double xi[3] = {9, 9, 9}; e->np2rst(q, xi); ld x[3] = {xi[0], xi[1], xi[2]}; for (int k = 0; k < T::D; k++) check("points.inside", std::fabs(xi[k]) < 1, w); ld d = g.det(x); if (NX<T>::bad(*e, q, d)) { check("sizes", false, w + " wrong number of Jacobians"); return; }
      double iw = e->intWeight(q); check("weight.positive", iw > 0, w); jw += iw; ld qw = iw / d;
      int deg = 2 * order; int tot = 1; for (int k = 0; k < T::D; k++) tot *= deg; for (int m = 0; m < tot; m++) { std::vector<int> ex; int mm = m; ld v = qw; for (int k = 0; k < T::D; k++) { ex.push_back(mm % deg); v *= powl(x[k], mm % deg); mm /= deg; } mom[ex] += v; }
      auto f = e->formFunc(q); auto f2 = T::f(*e, xi); for (int n = 0; n < T::N; n++) { near("form.point", f[n], (double)g.N(n, x), 1e-14, w + " form function at an integration point"); check("form.same", f[n] == f2[n], w); } for (int b = 0; b < 3; b++) { ld c = 0; for (int n = 0; n < T::N; n++) c += f[n] * g.p[n][b]; fm[b] += iw * c; }
      NX<T>::go(*e, g, r, q, x, L); }
    for (auto& m : mom) { ld v = 1; for (int d : m.first) v *= d % 2 ? 0 : 2.0L / (d + 1); near("quadrature", (double)m.second, (double)v, 1e-13, w + " integral of a monomial"); ev("monomials"); }
    near("volume", e->volume(), (double)jw, 1e-13 * (double)jw, w + " volume() is not the sum of the weights");
    if (affine || T::D == 1 || order >= 2 || T::D == 2) { near("volume.exact", e->volume(), (double)vol, 1e-12 * (double)vol, w + " volume"); ev("volumes"); }
    if (affine || T::D == 1 || order >= 2) for (int b = 0; b < (T::D == 2 ? 2 : 3); b++) { near("moment.exact", (double)fm[b], (double)first[b], 1e-12 * (double)vol * L, w + " first moment"); ev("moments"); }
    // interpolation anywhere
    for (int t = 0; t < 4; t++) { double x[3]; ld X[3]; for (int k = 0; k < 3; k++) X[k] = x[k] = r.range(-1, 1); auto f = T::f(*e, x); auto d = T::d(*e, x); ld sum = 0; for (int n = 0; n < T::N; n++) { sum += f[n]; near("form.value", f[n], (double)g.N(n, X), 1e-14, w); for (int k = 0; k < T::D; k++) near("form.derivative", d[n][k], (double)g.dN(n, k, X), 1e-14, Str() << w << " derivative of form function " << n << " in direction " << k); } near("form.unity", (double)sum, 1, 1e-14, w); ev("interpolations"); }
    for (int m = 0; m < T::N; m++) { double x[3]; for (int k = 0; k < T::D; k++) x[k] = T::c(m, k); auto f = T::f(*e, x); for (int n = 0; n < T::N; n++) check("form.nodes", f[n] == (n == m ? 1.0 : 0.0), Str() << w << " form function " << n << " at node " << m); }
    mon::sig(Str() << T::D << io << affine << "." << r.s); if (rep) ev("moved_nodes");
  }
}
static void run(mon::Rng& r, uint64_t c) { if (c % 3 == 0) element<Trait1>(r); else if (c % 3 == 1) element<Trait2>(r); else element<Trait3>(r); }
mon::Harness mon::harness() { return {"C20", 6000, 300000, run, nullptr}; }
