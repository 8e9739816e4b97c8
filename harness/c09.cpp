// C09: linear elements implement the physics of their fields: closed-form element matrices and loads, exact constant states (patch test), recovered strains,
// stresses and fluxes, independence of position, orientation and node order.
#include "phys.h"
#include "la.h"
using namespace nla3d;
using mon::Rng; using mon::Str; using la::M; using la::V;

namespace {
struct P3 { double v[3]; double& operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; } };
P3 p3(double a, double b, double c) { P3 p = {{a, b, c}}; return p; }
P3 sub(P3 a, P3 b) { return p3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
P3 cross(P3 a, P3 b) { return p3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
double dot(P3 a, P3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double len(P3 a) { return std::sqrt(dot(a, a)); }
P3 mul(const M& q, P3 a) { P3 r; for (int i = 0; i < 3; i++) r[i] = q(i, 0) * a[0] + q(i, 1) * a[1] + q(i, 2) * a[2]; return r; }
// random rotation from a quaternion
M rot(Rng& r) {
  double q[4], n = 0; for (auto& x : q) { x = r.range(-1, 1); n += x * x; } n = std::sqrt(n); for (auto& x : q) x /= n;
  M m(3, 3); double w = q[0], x = q[1], y = q[2], z = q[3];
  m(0, 0) = 1 - 2 * (y * y + z * z); m(0, 1) = 2 * (x * y - w * z); m(0, 2) = 2 * (x * z + w * y);
  m(1, 0) = 2 * (x * y + w * z); m(1, 1) = 1 - 2 * (x * x + z * z); m(1, 2) = 2 * (y * z - w * x);
  m(2, 0) = 2 * (x * z - w * y); m(2, 1) = 2 * (y * z + w * x); m(2, 2) = 1 - 2 * (x * x + y * y);
  return m;
}

struct Model {
  FEStorage s;
  std::vector<uint32> nodes;
  std::vector<Dof::dofType> types;
  bool transient = false;
  void node(P3 p) { auto n = s.createNodes(1); for (int i = 0; i < 3; i++) s.getNode(n[0]).pos[i] = p[i]; nodes.push_back(n[0]); }
  void go() { s.setTransient(transient); s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); s.assembleGlobalEqMatrices(); }
  int n() { return (int)(nodes.size() * types.size()); }
  uint32 eq(int i) { return s.getNodeDofEqNumber(nodes[i / types.size()], types[i % types.size()]); }
  M mat(math::BlockSparseSymMatrix<2>* b) { M m(n(), n()); for (int i = 0; i < n(); i++) for (int j = 0; j < n(); j++) m(i, j) = b->block(2)->value(eq(i), eq(j)); return m; }
  V load() { V v(n()); for (int i = 0; i < n(); i++) v[i] = (*s.getF())[eq(i) - 1]; return v; }
  void setU(const V& u) { for (int i = 0; i < n(); i++) (*s.getU())[eq(i) - 1] = u[i]; }
};
void cmpM(const std::string& key, const M& a, const M& b, double rel, const std::string& what) {
  double t = rel * std::max(b.maxAbs(), 1e-300);
  for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) if (!mon::near(key, a(i, j), b(i, j), t, Str() << what << " entry " << i << "," << j)) return;
  mon::ev("matrix_entries", a.r * a.c);
}
void cmpV(const std::string& key, const V& a, const V& b, double tol, const std::string& what) {
  for (size_t i = 0; i < a.size(); i++) if (!mon::near(key, a[i], b[i], tol, Str() << what << " component " << i)) return;
  mon::ev("vector_entries", a.size());
}
// gradients of the linear shape functions of a simplex with d+1 nodes in d dimensions; returns measure (signed)
double simplexGrad(const std::vector<P3>& x, int d, M& g) {
  M a(d + 1, d + 1);
  for (int i = 0; i <= d; i++) { a(i, 0) = 1; for (int k = 0; k < d; k++) a(i, k + 1) = x[i][k] - x[0][k]; }
  M inv; la::solveMulti(a, M::eye(d + 1), inv);
  g = M(d, d + 1); for (int k = 0; k < d; k++) for (int i = 0; i <= d; i++) g(k, i) = inv(k + 1, i);
  double det = la::det(a);
  return d == 2 ? det / 2 : det / 6;
}
M elastic3(double E, double nu) {
  double lam = E * nu / ((1 + nu) * (1 - 2 * nu)), mu = E / (2 * (1 + nu)); M d(6, 6);
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) d(i, j) = lam; d(i, i) += 2 * mu; d(3 + i, 3 + i) = mu; }
  return d;
}
M elastic2(double E, double nu, bool stress) {
  M d(3, 3);
  if (stress) { double a = E / (1 - nu * nu); d(0, 0) = d(1, 1) = a; d(0, 1) = d(1, 0) = a * nu; d(2, 2) = E / (2 * (1 + nu)); }
  else { M e = elastic3(E, nu); d(0, 0) = d(1, 1) = e(0, 0); d(0, 1) = d(1, 0) = e(0, 1); d(2, 2) = e(3, 3); }
  return d;
}
// strain order XX,YY,ZZ,XY,YZ,XZ (engineering shear)
M bTet(const M& g) {
  M b(6, 12);
  for (int i = 0; i < 4; i++) {
    double x = g(0, i), y = g(1, i), z = g(2, i); int c = 3 * i;
    b(0, c) = x; b(1, c + 1) = y; b(2, c + 2) = z; b(3, c) = y; b(3, c + 1) = x; b(4, c + 1) = z; b(4, c + 2) = y; b(5, c) = z; b(5, c + 2) = x;
  }
  return b;
}
M bTri(const M& g) { M b(3, 6); for (int i = 0; i < 3; i++) { b(0, 2 * i) = g(0, i); b(1, 2 * i + 1) = g(1, i); b(2, 2 * i) = g(1, i); b(2, 2 * i + 1) = g(0, i); } return b; }

P3 place(Rng& r, const M& q, P3 off, double scale, P3 p) { P3 x = mul(q, p); return p3(x[0] * scale + off[0], x[1] * scale + off[1], x[2] * scale + off[2]); }
struct Frame { M q; P3 off; double sc; Frame(Rng& r, bool planar = false) {
  sc = r.chance(0.5) ? 1.0 : r.logrange(1e-2, 1e2);
  if (planar) { double t = r.range(0, 6.3); q = M::eye(3); q(0, 0) = q(1, 1) = std::cos(t); q(0, 1) = -std::sin(t); q(1, 0) = std::sin(t); off = p3(r.range(-3, 3) * sc, r.range(-3, 3) * sc, 0); }
  else if (r.chance(0.25)) { q = M::eye(3); off = p3(0, 0, 0); }
  else { q = rot(r); off = p3(r.range(-3, 3) * sc, r.range(-3, 3) * sc, r.range(-3, 3) * sc); } } 
  P3 operator()(Rng& r, P3 p) { return place(r, q, off, sc, p); } };
V randU(Rng& r, int n, double s) { V u(n); for (auto& x : u) x = r.range(-s, s); return u; }

// ---- trusses
void truss(Rng& r) {
  Model m; m.types = {Dof::UX, Dof::UY, Dof::UZ}; Frame f(r);
  int n = (int)r.irange(2, 6);
  std::vector<P3> x; 
  for (int i = 0; i < n; i++) { P3 p; bool ok; do { p = r.chance(0.4) ? p3(r.irange(-2, 2), r.irange(-2, 2), r.irange(-2, 2)) : p3(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)); p = f(r, p); ok = true; for (auto& o : x) if (len(sub(o, p)) < 0.1 * f.sc) ok = false; } while (!ok); x.push_back(p); m.node(p); }
  int ne = (int)r.irange(1, 8);
  struct T { int a, b; ElementTRUSS3* e; }; std::vector<T> ts;
  M K(3 * n, 3 * n);
  for (int k = 0; k < ne; k++) {
    int a = (int)r.irange(0, n - 1), b; do b = (int)r.irange(0, n - 1); while (a == b);
    if (k < n - 1) { a = k; b = k + 1; if (r.chance(0.5)) std::swap(a, b); }
    auto* e = new ElementTRUSS3; e->E = r.logrange(1, 1e6); e->A = r.logrange(1e-3, 10); e->getNodeNumber(0) = m.nodes[a]; e->getNodeNumber(1) = m.nodes[b]; m.s.addElement(e);
    P3 d = sub(x[b], x[a]); double L = len(d);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = e->E * e->A / L * d[i] * d[j] / (L * L); K(3 * a + i, 3 * a + j) += v; K(3 * b + i, 3 * b + j) += v; K(3 * a + i, 3 * b + j) -= v; K(3 * b + i, 3 * a + j) -= v; }
    ts.push_back({a, b, e});
  }
  if (ne < n - 1) return;
  m.go();
  cmpM("truss.stiffness", m.mat(m.s.getK()), K, 1e-11, "truss stiffness");
  for (int round = 0; round < 2; round++) {
    V u = randU(r, 3 * n, f.sc * 1e-2); m.setU(u); m.s.updateResults();
    for (auto& t : ts) { P3 d = sub(x[t.b], x[t.a]); double L = len(d), el = 0; for (int i = 0; i < 3; i++) el += d[i] / L * (u[3 * t.b + i] - u[3 * t.a + i]); mon::near("truss.stress", t.e->S, t.e->E * el / L, 1e-10 * t.e->E * 0.1, "truss stress"); mon::ev("recovered"); }
  }
  mon::sig(Str() << "truss" << n << ne);
}

// ---- simplices: one element with closed forms, or a star of elements around a free inner node
void triangle(Rng& r) {
  Model m; m.types = {Dof::UX, Dof::UY}; Frame f(r, true);
  std::vector<P3> x; double area;
  do { x.clear(); for (int i = 0; i < 3; i++) x.push_back(f(r, p3(r.range(-1, 1), r.range(-1, 1), 0))); M g; area = simplexGrad(x, 2, g); } while (area < 0.05 * f.sc * f.sc);
  for (auto& p : x) m.node(p);
  auto* e = new ElementTRIANGLE4; bool stress = r.chance(0.5);
  if (r.chance(0.3) && stress) {} else e->state = stress ? PlaneState::Stress : PlaneState::Strain;
  e->E = r.logrange(1, 1e6); e->my = r.chance(0.2) ? r.range(-0.9, 0) : r.range(0, 0.45); if (r.chance(0.2)) e->my = 0;
  int rotn = (int)r.irange(0, 2); std::vector<int> ord; for (int i = 0; i < 3; i++) ord.push_back((i + rotn) % 3);
  for (int i = 0; i < 3; i++) e->getNodeNumber(i) = m.nodes[ord[i]];
  m.s.addElement(e); m.go();
  M g; simplexGrad(x, 2, g); M b = bTri(g), D = elastic2(e->E, e->my, stress);
  cmpM(stress ? "triangle.stress.stiffness" : "triangle.strain.stiffness", m.mat(m.s.getK()), b.t() * D * b * area, 1e-9, "triangle stiffness");
  for (int round = 0; round < 3; round++) {
    V u = randU(r, 6, 1e-2 * f.sc); m.setU(u); m.s.updateResults();
    V eps = b * u, sg = D * eps; V ge(3), gs(3); for (int i = 0; i < 3; i++) { ge[i] = e->strains[i]; gs[i] = e->stress[i]; }
    double t = 1e-10 * (la::maxAbs(u) * b.maxAbs());
    cmpV("triangle.strains", ge, eps, t * 6, "triangle strains"); cmpV("triangle.stresses", gs, sg, t * 6 * D.maxAbs(), "triangle stress"); mon::ev("recovered");
  }
  mon::sig(Str() << "tri" << stress << rotn << (e->my == 0));
}

std::vector<P3> randTet(Rng& r, Frame& f, double& vol, M& g) {
  std::vector<P3> x;
  do { x.clear(); for (int i = 0; i < 4; i++) x.push_back(f(r, p3(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)))); vol = simplexGrad(x, 3, g); } while (std::fabs(vol) < 0.03 * f.sc * f.sc * f.sc);
  if (vol < 0) { std::swap(x[0], x[1]); vol = simplexGrad(x, 3, g); }
  return x;
}
static const int EVEN[12][4] = {{0,1,2,3},{0,2,3,1},{0,3,1,2},{1,0,3,2},{1,3,2,0},{1,2,0,3},{2,0,1,3},{2,1,3,0},{2,3,0,1},{3,0,2,1},{3,2,1,0},{3,1,0,2}};

void tetSolid(Rng& r) {
  Model m; m.types = {Dof::UX, Dof::UY, Dof::UZ}; Frame f(r); double vol; M g;
  auto x = randTet(r, f, vol, g); for (auto& p : x) m.node(p);
  auto* e = new ElementTETRA0; e->E = r.logrange(1, 1e6); e->my = r.chance(0.2) ? r.range(-0.9, 0) : r.range(0, 0.45);
  int p = (int)r.irange(0, 11); for (int i = 0; i < 4; i++) e->getNodeNumber(i) = m.nodes[EVEN[p][i]];
  bool hot = r.chance(0.5); if (hot) { e->alpha = (r.chance(0.2) ? -1 : 1) * r.logrange(1e-6, 1e-3); e->T = r.sign() * r.range(1, 200); }
  // initial strains or stresses: what the element holds before the first solution
  M D = elastic3(e->E, e->my); V ini(6, 0.0), iniS(6, 0.0); int initial = r.chance(0.3) ? (int)r.irange(1, 2) : 0;
  if (initial) { for (int i = 0; i < 6; i++) ini[i] = r.chance(0.3) ? 0 : r.range(-1e-2, 1e-2); iniS = D * ini; for (int i = 0; i < 6; i++) (initial == 1 ? e->strains : e->stress)[i] = initial == 1 ? ini[i] : iniS[i]; mon::ev(initial == 1 ? "initial_strains" : "initial_stresses"); }
  m.s.addElement(e); m.go();
  M b = bTet(g);
  M K = b.t() * D * b * vol; V th(6, 0.0); for (int i = 0; i < 3; i++) th[i] = e->alpha * e->T;
  th = th + ini; double thm = la::maxAbs(th);
  V F = b.t() * (D * th) * vol;
  double tf = 1e-9 * (b.maxAbs() * D.maxAbs() * vol * (std::fabs(e->alpha * e->T) + la::maxAbs(ini)) * 3) + 1e-300;
  cmpM("tetra.stiffness", m.mat(m.s.getK()), K, 1e-9, "tetrahedron stiffness");
  cmpV("tetra.thermal.load", m.load(), F, tf, "thermal load");
  if (r.chance(0.5)) { m.s.assembleGlobalEqMatrices(); cmpV("tetra.reassembled.load", m.load(), F, tf, "thermal load of a second assembly"); cmpM("tetra.stiffness", m.mat(m.s.getK()), K, 1e-9, "tetrahedron stiffness, second assembly"); mon::ev("reassembled"); }
  for (int round = 0; round < 2; round++) {
    bool freeExp = hot && !initial && round == 0; V u(12);
    if (freeExp) for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) u[3 * i + k] = e->alpha * e->T * (x[i][k] - x[0][k]);
    else u = randU(r, 12, 1e-2 * f.sc);
    m.setU(u); m.s.updateResults();
    V eps = b * u, sg = D * (eps - th), ge(6), gs(6); for (int i = 0; i < 6; i++) { ge[i] = e->strains[i]; gs[i] = e->stress[i]; }
    double t = 1e-10 * 12 * la::maxAbs(u) * b.maxAbs();
    cmpV("tetra.strains", ge, eps, t, "tetrahedron strains"); cmpV(freeExp ? "tetra.free.expansion" : "tetra.stresses", gs, sg, (t + 1e-10 * (std::fabs(e->alpha * e->T) + thm)) * D.maxAbs() * 3, "tetrahedron stress");
    mon::ev("recovered"); if (freeExp) mon::ev("free_expansions");
  }
  mon::near("tetra.volume", e->vol, vol, 1e-9 * vol, "volume");
  mon::sig(Str() << "tet0" << p << hot << initial);
}

void tetHeat(Rng& r) {
  Model m; m.types = {Dof::TEMP}; Frame f(r); double vol; M g;
  auto x = randTet(r, f, vol, g); for (auto& p : x) m.node(p);
  auto* e = new ElementTETRA1; e->k = r.logrange(1e-2, 1e3);
  int p = (int)r.irange(0, 11); for (int i = 0; i < 4; i++) e->getNodeNumber(i) = m.nodes[EVEN[p][i]];
  m.s.addElement(e); m.go();
  cmpM("tetheat.conductivity", m.mat(m.s.getK()), g.t() * g * (e->k * vol), 1e-9, "conductivity");
  for (int round = 0; round < 2; round++) {
    V u = randU(r, 4, 100); m.setU(u); m.s.updateResults();
    V gr = g * u; double t = 1e-9 * 400 * g.maxAbs();
    math::Vec<3> q, dt; q.zero(); dt.zero();
    bool a = e->getVector(&q, vectorQuery::FLUX, GP_MEAN, 1.0), b = e->getVector(&dt, vectorQuery::GRADT, GP_MEAN, 1.0);
    mon::check("tetheat.answered", a && b, "flux and gradient are supported");
    for (int i = 0; i < 3; i++) { mon::near("tetheat.flux", q[i], -e->k * gr[i], t * e->k, "heat flux"); mon::near("tetheat.gradient", dt[i], gr[i], t, "temperature gradient"); }
    mon::ev("recovered");
  }
  mon::sig(Str() << "tet1" << p);
}

// ---- bilinear heat quads: N_i with own Gauss rules
double quadRule(const std::vector<P3>& x, int n, std::function<void(const V& N, const M& g, double w)> f) {
  static const double G2[2] = {-0.57735026918962576, 0.57735026918962576}, W2[2] = {1, 1};
  static const double G4[4] = {-0.86113631159405258, -0.33998104358485626, 0.33998104358485626, 0.86113631159405258}, W4[4] = {0.34785484513745386, 0.65214515486254614, 0.65214515486254614, 0.34785484513745386};
  const double* G = n == 2 ? G2 : G4; const double* W = n == 2 ? W2 : W4;
  static const int S[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
  double minJ = 1e300;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
    double s = G[a], t = G[b]; V N(4); M d(2, 4), J(2, 2);
    for (int i = 0; i < 4; i++) { N[i] = (1 + S[i][0] * s) * (1 + S[i][1] * t) / 4; d(0, i) = S[i][0] * (1 + S[i][1] * t) / 4; d(1, i) = S[i][1] * (1 + S[i][0] * s) / 4; for (int k = 0; k < 2; k++) { J(0, k) += d(0, i) * x[i][k]; J(1, k) += d(1, i) * x[i][k]; } }
    double det = J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0); minJ = std::min(minJ, det);
    M inv(2, 2); inv(0, 0) = J(1, 1) / det; inv(1, 1) = J(0, 0) / det; inv(0, 1) = -J(0, 1) / det; inv(1, 0) = -J(1, 0) / det;
    if (f) f(N, inv * d, W[a] * W[b] * det);
  }
  return minJ;
}
std::vector<P3> randQuad(Rng& r, Frame& f) {
  std::vector<P3> x;
  do {
    x.clear(); static const double C[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}; double sx = r.range(0.3, 2), sk = r.range(-.5, .5), d = r.chance(0.3) ? 0 : 0.4;
    for (int i = 0; i < 4; i++) x.push_back(f(r, p3(sx * C[i][0] + sk * C[i][1] + r.range(-d, d), C[i][1] + r.range(-d, d), 0)));
  } while (quadRule(x, 4, nullptr) < 0.05 * f.sc * f.sc);
  return x;
}
void quadHeat(Rng& r) {
  Model m; m.types = {Dof::TEMP}; Frame f(r, true); m.transient = r.chance(0.7);
  auto x = randQuad(r, f); for (auto& p : x) m.node(p);
  auto* e = new ElementQUADTH; e->k = r.logrange(1e-2, 1e3); e->rho = r.logrange(1e-1, 1e3); e->c = r.logrange(1e-1, 1e2); e->volFlux = r.chance(0.3) ? 0 : r.range(-5, 5);
  int p = (int)r.irange(0, 3); for (int i = 0; i < 4; i++) e->getNodeNumber(i) = m.nodes[(i + p) % 4];
  m.s.addElement(e); m.go();
  M K(4, 4), C(4, 4); V F(4, 0.0), one(4, 1.0); double area = 0;
  quadRule(x, 2, [&](const V& N, const M& g, double w) { K = K + g.t() * g * (w * e->k); });
  quadRule(x, 4, [&](const V& N, const M& g, double w) { area += w; for (int i = 0; i < 4; i++) { F[i] += e->volFlux * N[i] * w; for (int j = 0; j < 4; j++) C(i, j) += e->rho * e->c * N[i] * N[j] * w; } });
  M gk = m.mat(m.s.getK());
  cmpM("quad.conductivity", gk, K, 1e-8, "conductivity");
  cmpV("quad.source", m.load(), F, 1e-8 * std::fabs(e->volFlux) * area + 1e-300, "volume source");
  if (m.transient) { cmpM("quad.capacity", m.mat(m.s.getC()), C, 1e-8, "capacity"); mon::check("quad.inertia", m.mat(m.s.getM()).maxAbs() == 0, "heat elements have no inertia"); mon::ev("capacities"); }
  cmpV("quad.uniform", gk * one, V(4, 0.0), 1e-9 * gk.maxAbs(), "uniform temperature conducts no heat");
  mon::sig(Str() << "quad" << p << m.transient << (e->volFlux == 0));
}
void lineHeat(Rng& r) {
  Model m; m.types = {Dof::TEMP}; Frame f(r, true); P3 a, b;
  do { a = f(r, p3(r.range(-1, 1), r.range(-1, 1), 0)); b = f(r, p3(r.range(-1, 1), r.range(-1, 1), 0)); } while (len(sub(a, b)) < 0.1 * f.sc);
  m.node(a); m.node(b); double L = len(sub(a, b));
  auto* e = new SurfaceLINETH; e->flux = r.chance(0.4) ? 0 : r.range(-5, 5); e->htc = r.chance(0.3) ? 0 : r.logrange(0.1, 100); e->etemp[0] = r.chance(0.2) ? 0 : r.range(1, 50) * r.sign(); e->etemp[1] = r.range(1, 50) * r.sign(); if (e->etemp[0] == 0 && r.chance(0.3)) e->etemp[1] = 0;
  e->getNodeNumber(0) = m.nodes[0]; e->getNodeNumber(1) = m.nodes[1]; m.s.addElement(e); m.go();
  M K(2, 2); V F(2), te(2); te[0] = e->etemp[0]; te[1] = e->etemp[1];
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) K(i, j) = e->htc * L * (i == j ? 2 : 1) / 6;
  F = K * te; for (int i = 0; i < 2; i++) F[i] += e->flux * L / 2;
  cmpM("line.convection", m.mat(m.s.getK()), K, 1e-8, "convection matrix");
  cmpV("line.load", m.load(), F, 1e-8 * (std::fabs(e->flux) * L + e->htc * L * 50) + 1e-300, "surface load");
  mon::sig(Str() << "line" << (e->flux == 0) << (e->htc == 0));
}

// ---- interface elements
void spring(Rng& r) {
  Model m; m.types = {Dof::UX, Dof::UY, Dof::UZ}; Frame f(r); P3 a = f(r, p3(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)));
  m.node(a); m.node(r.chance(0.5) ? a : f(r, p3(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1))));
  auto* e = new ElementINTER0; e->kn = r.logrange(1e-2, 1e6); e->ks = r.logrange(1e-2, 1e6);
  P3 n; int how = (int)r.irange(0, 3);
  if (how == 0) do n = p3(r.irange(-1, 1), r.irange(-1, 1), r.irange(-1, 1)); while (len(n) == 0);
  else n = p3(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1));
  if (how == 1) { n = p3(r.range(-1e-9, 1e-9), 1, 1 + r.range(-1e-9, 1e-9)); }
  if (how == 2) { double s = r.logrange(1e-3, 1e3); for (int i = 0; i < 3; i++) n[i] *= s; }
  for (int i = 0; i < 3; i++) e->n[i] = n[i];
  e->getNodeNumber(0) = m.nodes[0]; e->getNodeNumber(1) = m.nodes[1]; m.s.addElement(e); m.go();
  double L = len(n); M K(6, 6);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = e->ks * (i == j) + (e->kn - e->ks) * n[i] * n[j] / (L * L); K(i, j) = K(3 + i, 3 + j) = v; K(i, 3 + j) = K(3 + i, j) = -v; }
  cmpM("spring.stiffness", m.mat(m.s.getK()), K, 1e-9, Str() << "spring stiffness, normal " << n[0] << " " << n[1] << " " << n[2]);
  for (int round = 0; round < 2; round++) { V u = randU(r, 6, 1); m.setU(u); m.s.updateResults(); for (int i = 0; i < 3; i++) mon::near("spring.jump", e->strains[i], u[3 + i] - u[i], 1e-12, "displacement jump"); mon::ev("recovered"); }
  mon::sig(Str() << "spring" << how);
}
void wedge(Rng& r) {
  Model m; m.types = {Dof::UX, Dof::UY, Dof::UZ}; Frame f(r); std::vector<P3> x; double area;
  do { x.clear(); P3 l[3]; for (auto& p : l) p = p3(r.range(-1, 1), r.range(-1, 1), 0); for (auto& p : l) x.push_back(f(r, p)); area = len(cross(sub(x[1], x[0]), sub(x[2], x[0]))) / 2; } while (area < 0.1 * f.sc * f.sc);
  P3 n = cross(sub(x[1], x[0]), sub(x[2], x[0])); double L = len(n); for (int i = 0; i < 3; i++) n[i] /= L;
  for (int i = 0; i < 3; i++) x.push_back(x[i]);
  for (auto& p : x) m.node(p);
  auto* e = new ElementINTER3; e->kn = r.logrange(1e-1, 1e5); e->ks = r.logrange(1e-1, 1e5);
  int p = (int)r.irange(0, 2); for (int i = 0; i < 3; i++) { e->getNodeNumber(i) = m.nodes[(i + p) % 3]; e->getNodeNumber(3 + i) = m.nodes[3 + (i + p) % 3]; }
  m.s.addElement(e); m.go();
  M D(3, 3), K(18, 18); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) D(i, j) = e->ks * (i == j) + (e->kn - e->ks) * n[i] * n[j];
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) { double w = area / 12 * ((a % 3 == b % 3) ? 2 : 1) * ((a / 3 == b / 3) ? 1 : -1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K(3 * a + i, 3 * b + j) = w * D(i, j); }
  cmpM("interface.stiffness", m.mat(m.s.getK()), K, 1e-6, "interface stiffness");
  for (int round = 0; round < 2; round++) {
    V u = randU(r, 18, 1); m.setU(u); m.s.updateResults(); V j(3, 0.0), ge(3), gs(3);
    for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) j[i] += (u[9 + 3 * a + i] - u[3 * a + i]) / 3;
    for (int i = 0; i < 3; i++) { ge[i] = e->strains[i]; gs[i] = e->stress[i]; }
    cmpV("interface.jump", ge, j, 1e-6, "surface averaged displacement jump"); cmpV("interface.traction", gs, D * j, 1e-6 * D.maxAbs() * 3, "surface averaged traction"); mon::ev("recovered");
  }
  mon::sig(Str() << "wedge" << p);
}

// ---- patch tests: linear fields on the boundary of irregular meshes give the linear field inside
void patch(Rng& r) {
  int kind = (int)r.irange(0, 3);
  FEStorage s; LinearFESolver f; f.attachFEStorage(&s);
  Frame fr(r, kind >= 2); std::vector<P3> x; std::vector<char> inner; std::vector<std::vector<int>> cells;
  if (kind <= 1) { // cube surface triangles joined to an inner node
    for (int i = 0; i < 8; i++) { x.push_back(fr(r, p3((i & 1) + r.range(-.1, .1), ((i >> 1) & 1) + r.range(-.1, .1), ((i >> 2) & 1) + r.range(-.1, .1)))); inner.push_back(0); }
    x.push_back(fr(r, p3(.5 + r.range(-.15, .15), .5 + r.range(-.15, .15), .5 + r.range(-.15, .15)))); inner.push_back(1);
    int q[6][4] = {{0, 1, 3, 2}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 3, 7, 5}};
    for (auto& w : q) { int o = (int)r.irange(0, 1); int t[2][3] = {{w[o], w[1 + o], w[2 + o]}, {w[o], w[2 + o], w[(3 + o) % 4]}}; for (auto& c : t) { std::vector<int> e = {c[0], c[1], c[2], 8}; std::vector<P3> y; for (int k : e) y.push_back(x[k]); M g; if (simplexGrad(y, 3, g) < 0) std::swap(e[0], e[1]); cells.push_back(e); } }
  } else if (kind == 2) { // 3x3 nodes, quads or triangles
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { bool in = i == 1 && j == 1; x.push_back(fr(r, p3(i + r.range(-.2, .2), j + r.range(-.2, .2), 0))); inner.push_back(in); }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) cells.push_back({3 * i + j, 3 * (i + 1) + j, 3 * (i + 1) + j + 1, 3 * i + j + 1});
  } else {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { x.push_back(fr(r, p3(i + r.range(-.2, .2), j + r.range(-.2, .2), 0))); inner.push_back(i == 1 && j == 1); }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { int a = 3 * i + j, b = 3 * (i + 1) + j, c = b + 1, d = a + 1; if (r.chance(0.5)) { cells.push_back({a, b, c}); cells.push_back({a, c, d}); } else { cells.push_back({a, b, d}); cells.push_back({b, c, d}); } }
  }
  s.createNodes((uint32)x.size()); auto num = r.perm((uint32)x.size(), 1);
  for (size_t i = 0; i < x.size(); i++) for (int k = 0; k < 3; k++) s.getNode(num[i]).pos[k] = x[i][k];
  double E = r.logrange(1, 1e5), nu = r.range(0, .45);
  for (auto& c : cells) {
    Element* e;
    if (kind == 0) { auto* t = new ElementTETRA0; t->E = E; t->my = nu; e = t; } else if (kind == 1) { auto* t = new ElementTETRA1; t->k = E; e = t; }
    else if (kind == 2) { auto* t = new ElementQUADTH; t->k = E; e = t; } else { auto* t = new ElementTRIANGLE4; t->E = E; t->my = nu; e = t; }
    for (size_t i = 0; i < c.size(); i++) e->getNodeNumber((uint16)i) = num[c[i]];
    s.addElement(e);
  }
  std::vector<Dof::dofType> ty; if (kind == 0) ty = {Dof::UX, Dof::UY, Dof::UZ}; else if (kind == 3) ty = {Dof::UX, Dof::UY}; else ty = {Dof::TEMP};
  M G((int)ty.size(), 3); V c0(ty.size()); for (auto& v : G.a) v = r.range(-1, 1); for (auto& v : c0) v = r.range(-1, 1);
  auto val = [&](int i, int t) { return c0[t] + (G(t, 0) * (x[i][0] - fr.off[0]) + G(t, 1) * (x[i][1] - fr.off[1]) + G(t, 2) * (x[i][2] - fr.off[2])) / fr.sc; };
  for (size_t i = 0; i < x.size(); i++) if (!inner[i]) for (size_t t = 0; t < ty.size(); t++) f.addFix(num[i], ty[t], val((int)i, (int)t));
  f.solve();
  for (size_t i = 0; i < x.size(); i++) if (inner[i]) for (size_t t = 0; t < ty.size(); t++) mon::near("patch", s.getNodeDofSolution(num[i], ty[t]), val((int)i, (int)t), 1e-7, Str() << "patch test, kind " << kind);
  mon::ev("patch_tests"); mon::sig(Str() << "patch" << kind);
}

void run(Rng& r, uint64_t k) {
  mon::note(Str() << "case kind " << k % 10);
  switch (k % 10) {
    case 0: truss(r); break; case 1: triangle(r); break; case 2: tetSolid(r); break; case 3: tetHeat(r); break; case 4: quadHeat(r); break;
    case 5: lineHeat(r); break; case 6: spring(r); break; case 7: wedge(r); break; default: patch(r);
  }
}
} // namespace
mon::Harness mon::harness() { return {"C09", 30000, 600000, run, nullptr}; }
