// C13: rigid body constraints: slave nodes follow the finite rigid motion of the master node, and the constraint equations are its exact linearisation.
#include "hyper.h"
#include "spy.h"
using namespace hyp;
typedef Eigen::Matrix<long double, 3, 3> L3; typedef Eigen::Matrix<long double, 3, 1> LV;

namespace {
// rotation matrix of a rotation vector and its derivatives, from the series/closed form in long double, independent of the library
L3 skew(const LV& t) { L3 k; k << 0, -t[2], t[1], t[2], 0, -t[0], -t[1], t[0], 0; return k; }
L3 expm(const LV& t) { // scaling and squaring of the exponential series
  L3 k = skew(t); int s = 0; long double n = t.norm(); while (n > 0.25L) { n /= 2; s++; } k /= powl(2, s);
  L3 r = L3::Identity(), term = L3::Identity(); for (int i = 1; i < 30; i++) { term = (term * k / (long double)i).eval(); r += term; }
  for (int i = 0; i < s; i++) r = (r * r).eval(); return r;
}
L3 dexp(const LV& t, int l) { // derivative along theta_l: augmented matrix exponential
  Eigen::Matrix<long double, 6, 6> a = Eigen::Matrix<long double, 6, 6>::Zero(); LV e = LV::Zero(); e[l] = 1; a.block<3, 3>(0, 0) = skew(t); a.block<3, 3>(3, 3) = skew(t); a.block<3, 3>(0, 3) = skew(e);
  int s = 0; long double n = t.norm() + 1; while (n > 0.25L) { n /= 2; s++; } a /= powl(2, s);
  Eigen::Matrix<long double, 6, 6> r = Eigen::Matrix<long double, 6, 6>::Identity(), term = r; for (int i = 1; i < 34; i++) { term = (term * a / (long double)i).eval(); r += term; }
  for (int i = 0; i < s; i++) r = (r * r).eval(); return r.block<3, 3>(0, 3);
}
LV randTheta(Rng& r) {
  double a = r.pick(std::vector<double>{0, 1e-9, 1e-5, 5e-4, 9.9e-4, 1.01e-3, 2e-3, 0.05, 0.5, 1.5, 3.0, 3.14159265358979, 4.5, 6.2}) * (r.chance(0.5) ? 1 : r.range(0.9, 1.1));
  LV d(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)); if (r.chance(0.3)) { d = LV::Zero(); d[(int)r.irange(0, 2)] = r.sign(); } return d.normalized() * (long double)a;
}
void linearisation(Rng& r) {
  FEStorage s; int n = (int)r.irange(4, 10); s.createNodes(n + 1);
  double size = r.logrange(0.1, 10);
  for (int i = 1; i <= n + 1; i++) for (int a = 0; a < 3; a++) s.getNode(i).pos[a] = r.range(-1, 1) * size;
  uint32 master = (uint32)r.irange(1, n + 1);
  for (int i = 1; i <= n + 1; i++) { auto* e = new fe::TestElem<ElementVERTEX>; e->setNodes({(uint32)i}); e->nodeDofs = {{Dof::UX, Dof::UY, Dof::UZ}}; if ((uint32)i == master && r.chance(0.5)) e->nodeDofs = {{}}; e->plan(r, (uint32)i); s.addElement(e); }
  std::vector<uint32> others; for (int i = 1; i <= n + 1; i++) if ((uint32)i != master) others.push_back((uint32)i);
  r.shuffle(others); int ncol = r.chance(0.2) ? 2 : 1; std::vector<RigidBodyMpc*> cols; std::map<std::pair<uint32, Dof::dofType>, int> want; // slave dof -> collection
  std::vector<uint32> masters; 
  size_t used = 0;
  for (int c = 0; c < ncol; c++) {
    auto* rb = new RigidBodyMpc; rb->storage = &s; rb->masterNode = master; 
    std::vector<Dof::dofType> d = {Dof::UX, Dof::UY, Dof::UZ}; r.shuffle(d); if (r.chance(0.4)) d.resize(r.irange(1, 3)); rb->dofs = d;
    size_t k = (size_t)r.irange(1, (long)std::max<size_t>(1, (others.size() - used) / (ncol - c))); for (size_t i = 0; i < k && used < others.size(); i++) rb->slaveNodes.push_back(others[used++]);
    for (auto sn : rb->slaveNodes) for (auto t : d) want[{sn, t}] = c;
    s.addMpcCollection(rb); cols.push_back(rb);
  }
  int solves = r.chance(0.3) ? 2 : 1;
  for (int pass = 0; pass < solves; pass++) {
    s.initDofs(); s.assignEquationNumbers(); s.initSolutionData();
    mon::check("count", s.nMpc() == want.size(), Str() << "one constraint per slave node and direction: " << s.nMpc() << " for " << want.size() << " in solution " << pass);
    if (s.nMpc() != want.size()) return;
    for (auto t : {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ}) mon::check("master.dofs", s.isNodeDofUsed(master, t), "the master node has all rigid body degrees of freedom");
    int states = (int)r.irange(1, 3);
    for (int q = 0; q < states; q++) {
      uint32 N = s.nDofs() + s.nMpc(); for (uint32 i = 0; i < N; i++) (*s.getU())[i] = r.range(-1, 1) * size;
      LV th = randTheta(r); Dof::dofType rt[3] = {Dof::ROTX, Dof::ROTY, Dof::ROTZ}, ut[3] = {Dof::UX, Dof::UY, Dof::UZ};
      for (int a = 0; a < 3; a++) (*s.getU())[s.getNodeDofEqNumber(master, rt[a]) - 1] = (double)th[a];
      for (int a = 0; a < 3; a++) th[a] = (*s.getU())[s.getNodeDofEqNumber(master, rt[a]) - 1];
      s.assembleGlobalEqMatrices();
      mon::note(Str() << "angle " << (double)th.norm() << " slaves " << want.size());
      bool small = th.norm() < 2e-3; double tb = (small ? 3e-9 : 1e-12) * size * 4, tc = (small ? 1e-6 : 1e-11) * size * 4;
      L3 R = expm(th), dR[3]; for (int l = 0; l < 3; l++) dR[l] = dexp(th, l);
      std::map<uint32, std::pair<uint32, Dof::dofType>> byEq; for (auto& w : want) byEq[s.getNodeDofEqNumber(w.first.first, w.first.second)] = w.first;
      std::set<std::pair<uint32, Dof::dofType>> seen;
      for (uint32 row = s.nDofs() + 1; row <= N; row++) {
        // dense row of the constraint
        std::vector<double> co(s.nDofs() + 1); for (uint32 j = 1; j <= s.nDofs(); j++) co[j] = s.getK()->block(2)->value(j, row);
        std::pair<uint32, Dof::dofType> id{0, Dof::UX}; double piv = 0; for (auto& b : byEq) if (co[b.first] != 0) { id = b.second; piv = co[b.first]; }
        if (!mon::check("row.slave", piv != 0, "every constraint names a slave")) continue;
        mon::check("row.once", seen.insert(id).second, "each slave direction is constrained once");
        int i = id.second == Dof::UX ? 0 : id.second == Dof::UY ? 1 : 2; LV pq; for (int a = 0; a < 3; a++) pq[a] = s.getNode(id.first).pos[a] - s.getNode(master).pos[a];
        std::vector<double> ex(s.nDofs() + 1), tol(s.nDofs() + 1, 0.0); ex[s.getNodeDofEqNumber(id.first, id.second)] = 1; ex[s.getNodeDofEqNumber(master, id.second)] = -1;
        for (int l = 0; l < 3; l++) { uint32 e = s.getNodeDofEqNumber(master, rt[l]); ex[e] = -(double)(dR[l].row(i) * pq)(0); tol[e] = tc; }
        for (uint32 j = 1; j <= s.nDofs(); j++) mon::near("coefficients", co[j] / piv, ex[j], tol[j] + 1e-15, Str() << "coefficient of equation " << j << " in constraint of node " << id.first);
        double b = s.getNodeDofSolution(master, ut[i]) + (double)(((R - L3::Identity()) * pq)(i)) - s.getNodeDofSolution(id.first, id.second);
        mon::near("residual", (*s.getF())[row - 1] / piv, b, tb, Str() << "distance of node " << id.first << " from the rigid motion");
        mon::ev("constraints");
      }
      if (th.norm() > 1) mon::ev("large_rotations"); if (small && th.norm() > 0) mon::ev("small_rotations"); if (th.norm() == 0) mon::ev("zero_rotation");
    }
    if (pass) mon::ev("repeated_solutions");
  }
  for (auto* c : cols) { std::ostringstream o; c->printEquations(o); mon::check("print", !o.str().empty(), "equations are printed"); }
  mon::sig(Str() << "lin" << want.size() << ncol << solves);
}
// body with a rigid face moved by a master node: every step ends with the face moved rigidly and forces in balance
void solve(Rng& r) {
  int dim = r.chance(0.7) ? 2 : 3; Mesh m(r, dim, dim == 2 ? 2 : 1, false); { double sc = 1 / m.h.c[0]; int n = Hyper::nc(m.h.kind); for (int i = 0; i < n; i++) m.h.c[i] *= sc; m.h.c[n - 1] = std::min(m.h.c[n - 1], 20.0); for (int i = 0; i < n; i++) m.s.getMaterial()->Ci((uint16)i) = m.h.c[i]; }
  uint32 master = m.s.createNodes(1)[0]; for (int a = 0; a < 3; a++) m.s.getNode(master).pos[a] = m.X[0][a] + (a < dim ? r.range(-1, 1) * m.size : 0);
  auto face = [&](size_t i) { int stride = (m.n[1] + 1) * (m.n[2] + 1); return (int)i / stride; };
  auto* rb = new RigidBodyMpc; rb->storage = &m.s; rb->masterNode = master; for (int a = 0; a < dim; a++) rb->dofs.push_back(Mesh::ut(a));
  NonlinearFESolver sol; sol.attachFEStorage(&m.s); math::GaussDenseEquationSolver gs; sol.attachEquationSolver(&gs); sol.numberOfIterations = 30; sol.numberOfLoadsteps = (uint16)r.irange(3, 8); sol.convergenceCriteria = 1e-4;
  for (size_t i = 0; i < m.X.size(); i++) if (face(i) == 0) for (int a = 0; a < dim; a++) sol.addFix(m.num[i], Mesh::ut(a), 0); else if (face(i) == m.n[0]) rb->slaveNodes.push_back(m.num[i]);
  m.s.addMpcCollection(rb);
  double ang = r.range(-0.12, 0.12), tr[3]; for (auto& v : tr) v = r.range(-0.05, 0.05) * m.size; LV th = LV::Zero(); if (dim == 2) { th[2] = ang; tr[2] = 0; } else { LV d(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)); th = d.normalized() * (long double)ang; }
  bool freeRot = r.chance(0.25); // without the second derivative of the constraint in the tangent only small forces converge
  if (freeRot) { for (auto& v : tr) v *= 0.1; sol.numberOfIterations = 300; }
  for (int a = 0; a < 3; a++) sol.addFix(master, Mesh::ut(a), tr[a]);
  Dof::dofType rt[3] = {Dof::ROTX, Dof::ROTY, Dof::ROTZ}; for (int a = 0; a < 3; a++) if (!(freeRot && (dim == 3 || a == 2))) sol.addFix(master, rt[a], (double)th[a]);
  mon::note(Str() << "solve dim " << dim << " cells " << m.els.size() << " angle " << ang << (freeRot ? " free" : ""));
  std::vector<std::string> log; auto* spy = new fe::Spy(&m.s, &log, 0); int steps = 0;
  spy->at = [&](const char* w, int step) {
    if (std::string(w) != "process") return; steps++;
    LV t, w0; for (int a = 0; a < 3; a++) { t[a] = m.s.getNodeDofSolution(master, rt[a]); w0[a] = m.s.getNodeDofSolution(master, Mesh::ut(a)); }
    L3 R = expm(t); double f = (double)step / sol.numberOfLoadsteps; for (int a = 0; a < 3; a++) { mon::near("solve.master", (double)w0[a], tr[a] * f, 1e-10 * m.size, "prescribed translation"); if (!freeRot) mon::near("solve.master", (double)t[a], (double)th[a] * f, 1e-10, "prescribed rotation"); }
    for (auto sn : rb->slaveNodes) { LV pq, u; for (int a = 0; a < 3; a++) pq[a] = m.s.getNode(sn).pos[a] - m.s.getNode(master).pos[a]; u = w0 + (R - L3::Identity()) * pq; for (int a = 0; a < dim; a++) mon::near("solve.rigid", m.s.getNodeDofSolution(sn, Mesh::ut(a)), (double)u[a], 2e-7 * m.size * 4, "slave node follows the rigid motion"); mon::ev("slaves_followed"); }
    double sum[3] = {0, 0, 0}, mag = 1e-3; for (size_t i = 0; i < m.X.size(); i++) if (face(i) == 0) for (int a = 0; a < dim; a++) { double v = m.s.getReaction(m.num[i], Mesh::ut(a)); sum[a] += v; mag = std::max(mag, std::fabs(v)); }
    for (int a = 0; a < dim; a++) mon::near("solve.balance", sum[a] + m.s.getReaction(master, Mesh::ut(a)), 0, 1e-4 * (mag + std::pow(m.size, dim - 1)), "support and master reactions balance"); mon::ev("balances");
  };
  sol.addPostProcessor(spy);
  if (getenv("C13LOG")) { el::Configurations c; c.setToDefault(); el::Loggers::reconfigureAllLoggers(c); fprintf(stderr, "%s size %g steps %d\n", mon::st().note.c_str(), m.size, (int)sol.numberOfLoadsteps); }
  sol.solve();
  mon::check("solve.steps", steps == sol.numberOfLoadsteps, "every load step is reported");
  mon::ev(freeRot ? "solved_free_rotation" : "solved"); mon::sig(Str() << "solve" << dim << m.els.size() << freeRot << m.h.kind);
}
void run(Rng& r, uint64_t) { if (r.chance(0.04)) solve(r); else linearisation(r); }
} // namespace
mon::Harness mon::harness() { return {"C13", 10000, 250000, run, nullptr}; }
