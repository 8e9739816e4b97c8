// Reference for the mixed displacement-pressure elements: potential P(u,p) = int W(I1,I2) + p (J-1) - p^2/(2k) dV, differentiated exactly, and irregular meshes of them.
#pragma once
#include "fe.h"
#include "la.h"
#include "hd.h"
namespace hyp {
using namespace nla3d; using la::M; using la::V; using mon::Rng; using mon::Str;
const int IJ[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
inline int comp(int i, int j) { if (i > j) std::swap(i, j); return i == 0 ? j : i == 1 ? 2 + j : 5; }
const int SGN[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
struct Pt { double xi[3], w; };
inline std::vector<Pt> gauss(int dim, int order) {
  std::vector<std::pair<double, double>> g;
  if (order == 1) g = {{0, 2}}; else if (order == 2) g = {{-std::sqrt(1.0 / 3), 1}, {std::sqrt(1.0 / 3), 1}}; else g = {{-std::sqrt(0.6), 5.0 / 9}, {0, 8.0 / 9}, {std::sqrt(0.6), 5.0 / 9}};
  std::vector<Pt> r;
  for (auto& a : g) for (auto& b : g) { if (dim == 2) r.push_back({{a.first, b.first, 0}, a.second * b.second}); else for (auto& c : g) r.push_back({{a.first, b.first, c.first}, a.second * b.second * c.second}); }
  return r;
}
// gradients of the shape functions with respect to the reference position; returns the Jacobian determinant
inline double grads(int dim, const std::vector<double>& X, const double* xi, M& g) {
  int nn = dim == 2 ? 4 : 8; M dn(nn, dim), jac(dim, dim);
  for (int n = 0; n < nn; n++) for (int a = 0; a < dim; a++) { double v = SGN[n][a] / (dim == 2 ? 4.0 : 8.0); for (int b = 0; b < dim; b++) if (b != a) v *= 1 + SGN[n][b] * xi[b]; dn(n, a) = v; }
  for (int n = 0; n < nn; n++) for (int i = 0; i < dim; i++) for (int a = 0; a < dim; a++) jac(a, i) += dn(n, a) * X[3 * n + i];
  M inv; la::solveMulti(jac, M::eye(dim), inv);
  g = M(nn, dim); for (int n = 0; n < nn; n++) for (int i = 0; i < dim; i++) for (int a = 0; a < dim; a++) g(n, i) += inv(i, a) * dn(n, a);
  return la::det(jac);
}
struct State { M F = M::eye(3); double C[6], S[6], J, I1, I2, W, D[6][6], Jd[6], Jdd[6][6]; }; // S = 2 dpsi/dC, D = d2psi/dC2 in independent components
inline State state(const Hyper& h, int dim, const M& g, const std::vector<double>& u, double p, bool second) {
  State s; int nn = g.r;
  for (int n = 0; n < nn; n++) for (int i = 0; i < dim; i++) for (int a = 0; a < dim; a++) s.F(i, a) += u[dim * n + i] * g(n, a);
  M c = s.F.t() * s.F; for (int k = 0; k < 6; k++) s.C[k] = c(IJ[k][0], IJ[k][1]);
  for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) {
    if (!second && a != b) continue;
    HD v[6], j, i1, i2; for (int k = 0; k < 6; k++) v[k] = HD(s.C[k], k == a, k == b, 0);
    HD w = h.iso(v, j, &i1, &i2), psi = w + HD(p) * j;
    s.J = (double)j.f; s.I1 = (double)i1.f; s.I2 = (double)i2.f; s.W = (double)w.f;
    if (a == b) { s.S[a] = (double)((IJ[a][0] == IJ[a][1] ? 2 : 1) * psi.a); s.Jd[a] = (double)j.a; }
    s.D[a][b] = s.D[b][a] = (double)psi.ab; s.Jdd[a][b] = s.Jdd[b][a] = (double)j.ab;
  }
  return s;
}
// element Hessian and negative gradient of the potential; unknowns node by node, pressure last
inline void reference(const Hyper& h, int dim, int order, const std::vector<double>& X, const std::vector<double>& u, double p, M& K, V& f, double& mag) {
  int nn = dim == 2 ? 4 : 8, nd = nn * dim, N = nd + 1; K = M(N, N); f = V(N); mag = 0;
  std::vector<long double> kk(N * N), ff(N);
  for (auto& q : gauss(dim, order)) {
    M g; double w = q.w * grads(dim, X, q.xi, g); State s = state(h, dim, g, u, p, true);
    // dpsi/dC components (independent), first derivatives of C
    std::vector<std::array<double, 6>> c1(nd);
    double P1[6]; for (int k = 0; k < 6; k++) P1[k] = s.S[k] * (IJ[k][0] == IJ[k][1] ? 0.5 : 1.0);
    for (int n = 0; n < nn; n++) for (int i = 0; i < dim; i++) for (int k = 0; k < 6; k++) { int a = IJ[k][0], b = IJ[k][1]; double ga = a < dim ? g(n, a) : 0, gb = b < dim ? g(n, b) : 0; c1[n * dim + i][k] = ga * s.F(i, b) + s.F(i, a) * gb; }
    for (int x = 0; x < nd; x++) {
      long double v = 0, vp = 0; for (int k = 0; k < 6; k++) { v += (long double)P1[k] * c1[x][k]; vp += (long double)s.Jd[k] * c1[x][k]; }
      ff[x] -= v * w; kk[x * N + nd] += vp * w;
      double dc[6]; for (int k = 0; k < 6; k++) { long double t = 0; for (int l = 0; l < 6; l++) t += (long double)s.D[k][l] * c1[x][l]; dc[k] = (double)t; }
      for (int y = x; y < nd; y++) {
        long double t = 0; for (int k = 0; k < 6; k++) t += (long double)dc[k] * c1[y][k];
        if (x % dim == y % dim) { int n = x / dim, m = y / dim; for (int k = 0; k < 6; k++) { int a = IJ[k][0], b = IJ[k][1]; if (a >= dim || b >= dim) continue; t += (long double)P1[k] * (g(n, a) * g(m, b) + g(m, a) * g(n, b)); } }
        kk[x * N + y] += t * w; mag = std::max(mag, std::fabs((double)t * w));
      }
    }
    ff[nd] -= (s.J - 1 - p / h.K()) * w; kk[nd * N + nd] -= w / h.K();
  }
  for (int i = 0; i < N; i++) { f[i] = (double)ff[i]; for (int j = i; j < N; j++) K(i, j) = K(j, i) = (double)kk[i * N + j]; }
}

inline Hyper randHyper(Rng& r) {
  Hyper h; h.kind = (int)r.irange(0, 2); int n = Hyper::nc(h.kind);
  double s = r.logrange(0.1, 100);
  for (int i = 0; i < n - 1; i++) h.c[i] = i == 0 ? s : r.range(h.kind == 2 ? 0 : -0.05, 0.3) * s;
  if (h.kind == 1) { h.c[1] = r.range(-0.05, 0.1) * s; h.c[2] = r.range(0, 0.05) * s; }
  h.c[n - 1] = s * r.logrange(1, 1000);
  return h;
}
struct Mesh {
  FEStorage s; int dim, nn, order = 2; Hyper h; int n[3] = {1, 1, 1};
  std::vector<std::vector<double>> X; std::vector<char> onBoundary; std::vector<std::vector<int>> conn; std::vector<Element*> els; double size = 1;
  std::vector<uint32> num; // node number of node i
  Mesh(Rng& r, int d, int maxCells, bool anyOrder = false, bool skew = true) : dim(d), nn(d == 2 ? 4 : 8) {
    h = randHyper(r);
    Material* m = MaterialFactory::createMaterial(Hyper::name(h.kind)); for (int i = 0; i < Hyper::nc(h.kind); i++) m->Ci((uint16)i) = h.c[i];
    s.material = m;
    if (anyOrder && r.chance(0.3)) order = (int)r.irange(1, 3);
    for (int k = 0; k < dim; k++) n[k] = (int)r.irange(1, maxCells);
    if (dim == 2) n[2] = 0;
    size = r.chance(0.5) ? 1 : r.logrange(0.05, 20); double off[3] = {r.range(-2, 2) * size, r.range(-2, 2) * size, dim == 3 ? r.range(-2, 2) * size : 0};
    double th = r.range(0, 6.3), ph = dim == 3 ? r.range(0, 6.3) : 0; M q = M::eye(3), q2 = M::eye(3); q(0, 0) = q(1, 1) = std::cos(th); q(0, 1) = -std::sin(th); q(1, 0) = std::sin(th); q2(1, 1) = q2(2, 2) = std::cos(ph); q2(1, 2) = -std::sin(ph); q2(2, 1) = std::sin(ph); q = q2 * q;
    double stretch[3] = {1, r.range(0.6, 1.6), r.range(0.6, 1.6)}, amp = skew ? r.range(0, 0.22) : 0;
    int N = (n[0] + 1) * (n[1] + 1) * (n[2] + 1); num.resize(N); auto pm = r.perm(N, 1); for (int i = 0; i < N; i++) num[i] = pm[i];
    s.createNodes(N);
    for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= n[1]; j++) for (int k = 0; k <= n[2]; k++) {
      double x[3] = {(i + r.range(-amp, amp)) * stretch[0], (j + r.range(-amp, amp)) * stretch[1], dim == 3 ? (k + r.range(-amp, amp)) * stretch[2] : 0};
      std::vector<double> p(3); for (int a = 0; a < 3; a++) p[a] = (q(a, 0) * x[0] + q(a, 1) * x[1] + q(a, 2) * x[2]) * size + off[a];
      onBoundary.push_back(i == 0 || i == n[0] || j == 0 || j == n[1] || (dim == 3 && (k == 0 || k == n[2])));
      for (int a = 0; a < 3; a++) s.getNode(num[X.size()]).pos[a] = p[a];
      X.push_back(p);
    }
    auto id = [&](int i, int j, int k) { return (i * (n[1] + 1) + j) * (n[2] + 1) + k; };
    for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < std::max(1, n[2]); k++) {
      std::vector<int> c; 
      for (int v = 0; v < nn; v++) c.push_back(id(i + (SGN[v][0] > 0), j + (SGN[v][1] > 0), dim == 3 ? k + (SGN[v][2] > 0) : 0));
      int rotn = (int)r.irange(0, 3); std::vector<int> c2(nn); for (int v = 0; v < nn; v++) c2[v] = c[(v / 4) * 4 + (v % 4 + rotn) % 4];
      Element* e = dim == 2 ? (Element*)new ElementPLANE41 : (Element*)new ElementSOLID81; if (order != 2) e->setIntegrationOrder((uint16)order);
      for (int v = 0; v < nn; v++) e->getNodeNumber((uint16)v) = num[c2[v]];
      s.addElement(e); els.push_back(e); conn.push_back(c2);
    }
  }
  static Dof::dofType ut(int i) { return i == 0 ? Dof::UX : i == 1 ? Dof::UY : Dof::UZ; }
  std::vector<double> elX(int e) { std::vector<double> x; for (int v : conn[e]) for (int a = 0; a < 3; a++) x.push_back(X[v][a]); return x; }
  std::vector<double> elU(int e, const std::vector<std::vector<double>>& U) { std::vector<double> x; for (int v : conn[e]) for (int a = 0; a < dim; a++) x.push_back(U[v][a]); return x; }
  uint32 eqU(int node, int a) { return s.getNodeDofEqNumber(num[node], ut(a)); }
  uint32 eqP(int e) { return s.getElementDofEqNumber((uint32)e + 1, Dof::HYDRO_PRESSURE); }
  void ready() { s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); }
  void set(const std::vector<std::vector<double>>& U, const std::vector<double>& p) {
    for (size_t i = 0; i < X.size(); i++) for (int a = 0; a < dim; a++) (*s.getU())[eqU((int)i, a) - 1] = U[i][a];
    for (size_t e = 0; e < els.size(); e++) (*s.getU())[eqP((int)e) - 1] = p[e];
    s.updateResults();
  }
  // random displacement field with positive volume ratio at all integration points of any order
  bool randomField(Rng& r, std::vector<std::vector<double>>& U, std::vector<double>& p, double& worst) {
    double amp = r.pick(std::vector<double>{0, 1e-6, 1e-3, 0.05, 0.2, 0.4});
    M A = M::eye(dim); for (auto& v : A.a) v += r.range(-amp, amp);
    if (r.chance(0.3)) { double t = r.range(0, 6.3); M R = M::eye(dim); R(0, 0) = R(1, 1) = std::cos(t); R(0, 1) = -std::sin(t); R(1, 0) = std::sin(t); A = R * A; }
    U.assign(X.size(), std::vector<double>(dim));
    double ra = r.chance(0.8) ? amp * 0.3 * size : 0;
    for (size_t i = 0; i < X.size(); i++) for (int a = 0; a < dim; a++) { double v = -X[i][a]; for (int b = 0; b < dim; b++) v += A(a, b) * X[i][b]; U[i][a] = v + r.range(-ra, ra); }
    p.resize(els.size()); for (auto& v : p) v = r.chance(0.2) ? 0 : r.range(-1, 1) * h.c[0];
    worst = 1;
    for (size_t e = 0; e < els.size(); e++) for (auto& q : gauss(dim, 3)) { M g; grads(dim, elX((int)e), q.xi, g); State st = state(h, dim, g, elU((int)e, U), 0, false); if (!(la::det(st.F) > 0.2)) return false; double lo = std::min(st.J, 1.0), tr = st.I1; worst = std::max(worst, std::pow(tr / 3, 3) / (lo * lo)); }
    return true;
  }
};
} // namespace hyp
