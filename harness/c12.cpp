// C12: the mixed hyperelastic elements contribute exactly the gradient and Hessian of one potential, and meshes of them reproduce homogeneous states.
#include "hyper.h"
#include "spy.h"
using namespace hyp;

namespace {
void compare(Mesh& m, const std::vector<std::vector<double>>& U, const std::vector<double>& p, double worst, const char* what) {
  int n = (int)m.s.nDofs(); M K(n, n); V f(n); double mag = 0, fm = 0;
  for (size_t e = 0; e < m.els.size(); e++) {
    M k; V g; double mg; reference(m.h, m.dim, m.order, m.elX((int)e), m.elU((int)e, U), p[e], k, g, mg); mag = std::max(mag, mg);
    std::vector<uint32> id; for (int v : m.conn[e]) for (int a = 0; a < m.dim; a++) id.push_back(m.eqU(v, a)); id.push_back(m.eqP((int)e));
    for (size_t i = 0; i < id.size(); i++) { f[id[i] - 1] += g[i]; for (size_t j = 0; j < id.size(); j++) K(id[i] - 1, id[j] - 1) += k(i, j); }
  }
  auto* b = m.s.getK()->block(2); double vol = std::pow(m.size, m.dim), area = vol / m.size;
  double tk = 1e-11 * worst * (mag + area + vol / m.h.K()), tf = 1e-11 * worst * (mag * m.size + area * m.h.c[0] * 4), tkp = 1e-11 * worst * area * 10, tp = 1e-11 * worst * vol * 10;
  std::vector<char> isP(n, 0); for (size_t e = 0; e < m.els.size(); e++) isP[m.eqP((int)e) - 1] = 1;
  for (int i = 0; i < n; i++) {
    mon::near("residual", (*m.s.getF())[i], f[i], isP[i] ? tp : tf, Str() << what << ": load " << i); mon::ev("residual_entries");
    for (int j = i; j < n; j++) { bool pp = isP[i] && isP[j], up = isP[i] != isP[j]; if (!mon::near(pp ? "tangent.pressure" : up ? "tangent.coupling" : "tangent.displacement", b->value(i + 1, j + 1), K(i, j), pp ? tp / m.h.K() : up ? tkp : tk, Str() << what << ": tangent " << i << "," << j)) return; }
  }
  mon::ev("tangent_entries", (uint64_t)n * (n + 1) / 2);
}
void single(Rng& r) {
  int dim = r.chance(0.6) ? 2 : 3; Mesh m(r, dim, dim == 2 ? 2 : 1 + r.chance(0.15), true); m.ready();
  mon::note(Str() << "dim " << dim << " cells " << m.els.size() << " order " << m.order << " " << Hyper::name(m.h.kind));
  // before any update: the undeformed state
  std::vector<std::vector<double>> Z(m.X.size(), std::vector<double>(dim)), U, U1; std::vector<double> z(m.els.size()), p, p1; double worst = 1, w1 = 1;
  m.s.assembleGlobalEqMatrices(); if (r.chance(0.3)) { compare(m, Z, z, 1, "undeformed"); mon::ev("undeformed"); }
  int rounds = (int)r.irange(1, 3); bool have = false; std::vector<double> fk; 
  for (int k = 0; k < rounds; k++) {
    if (!m.randomField(r, U, p, worst)) continue;
    m.set(U, p); if (r.chance(0.2)) m.s.updateResults();
    m.s.assembleGlobalEqMatrices(); compare(m, U, p, worst, "deformed"); mon::ev("states");
    if (!have) { have = true; U1 = U; p1 = p; w1 = worst; fk.clear(); for (uint32 i = 0; i < m.s.nDofs(); i++) fk.push_back((*m.s.getF())[i]); }
  }
  if (have && rounds > 1) { // back to the first state: no history
    m.set(U1, p1); m.s.assembleGlobalEqMatrices(); for (uint32 i = 0; i < m.s.nDofs(); i++) mon::near("history", (*m.s.getF())[i], fk[i], 0, "loads depend on the current state only"); mon::ev("returned");
  }
  if (have && r.chance(0.3)) { // set up anew: the undeformed state again
    m.ready(); m.s.assembleGlobalEqMatrices(); compare(m, Z, z, 1, "set up again"); mon::ev("restarted");
  }
  mon::sig(Str() << dim << m.els.size() << m.order << m.h.kind << rounds << (int)std::log10(worst) );
}
// homogeneous deformation prescribed on the boundary: the interior follows, the pressure and stresses are those of the state
void patch(Rng& r) {
  int dim = r.chance(0.7) ? 2 : 3; Mesh m(r, dim, 2 + (dim == 2), false);
  double amp = r.pick(std::vector<double>{0.02, 0.1, 0.2}); M A = M::eye(dim); for (auto& v : A.a) v += r.range(-amp, amp);
  double J = la::det(A); if (!(J > 0.6 && J < 1.6)) return;
  { double sc = 1 / m.h.c[0]; int n = Hyper::nc(m.h.kind); for (int i = 0; i < n; i++) m.h.c[i] *= sc; m.h.c[n - 1] = std::min(m.h.c[n - 1], 100.0); for (int i = 0; i < n; i++) m.s.getMaterial()->Ci((uint16)i) = m.h.c[i]; }
  auto ua = [&](int i, int a) { double v = -m.X[i][a]; for (int b = 0; b < dim; b++) v += A(a, b) * m.X[i][b]; return v; };
  NonlinearFESolver sol; sol.attachFEStorage(&m.s); math::GaussDenseEquationSolver gs; sol.attachEquationSolver(&gs);
  std::vector<std::string> log; auto* spy = new fe::Spy(&m.s, &log, 0);
  sol.numberOfIterations = 30; sol.numberOfLoadsteps = (uint16)r.irange(3, 8); sol.convergenceCriteria = 1e-4;
  int inner = 0;
  for (size_t i = 0; i < m.X.size(); i++) if (m.onBoundary[i]) for (int a = 0; a < dim; a++) sol.addFix(m.num[i], Mesh::ut(a), ua((int)i, a)); else inner++;
  mon::note(Str() << "patch dim " << dim << " cells " << m.els.size() << " J " << J << " " << Hyper::name(m.h.kind));
  sol.addPostProcessor(spy); sol.solve();
  if (std::find(log.begin(), log.end(), "post0") == log.end()) { mon::ev("patch_not_converged"); return; }
  M g; std::vector<double> X0 = m.elX(0), u0; for (int v : m.conn[0]) for (int a = 0; a < dim; a++) u0.push_back(ua(v, a));
  double xi[3] = {0, 0, 0}; grads(dim, X0, xi, g); double p = m.h.K() * (J - 1);
  State s = state(m.h, dim, g, u0, p, false);
  double t = 1e-8;
  for (size_t i = 0; i < m.X.size(); i++) for (int a = 0; a < dim; a++) mon::near("patch.displacement", m.s.getNodeDofSolution(m.num[i], Mesh::ut(a)), ua((int)i, a), t * m.size * 3, "homogeneous displacement field");
  for (size_t e = 0; e < m.els.size(); e++) mon::near("patch.pressure", m.s.getElementDofSolution((uint32)e + 1, Dof::HYDRO_PRESSURE), p, t * m.h.K() * 3, "pressure = K (J - 1)");
  M S(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S(i, j) = s.S[comp(i, j)];
  M cau = (s.F * S * s.F.t()) * (1 / s.J);
  for (auto* e : m.els) { math::MatSym<3> x; x.zero(); e->getTensor(&x, tensorQuery::COUCHY); for (int k = 0; k < 6; k++) mon::near("patch.stress", x.data[k], cau(IJ[k][0], IJ[k][1]), t * (m.h.K() + m.h.c[0]) * 20, "Cauchy stress of the homogeneous state"); }
  mon::ev("patch_tests"); mon::ev("patch_inner_nodes", inner); mon::sig(Str() << "patch" << dim << m.els.size() << inner << m.h.kind);
}
void run(Rng& r, uint64_t) { if (r.chance(0.08)) patch(r); else single(r); }
} // namespace
mon::Harness mon::harness() { return {"C12", 8000, 200000, run, nullptr}; }
