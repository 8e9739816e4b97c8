// C07: transient analysis: every recorded state satisfies the equations of motion and the Newmark relations.
#include "fe.h"
#include "la.h"
#include "spy.h"
using namespace fe;
using mon::check;

static MX pd(mon::Rng& r, int n, double shift, double sc) {
  MX B(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = r.range(-1, 1);
  MX K = MX::Zero(n, n);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = i == j ? shift : 0; for (int k = 0; k < n; k++) v += B(k, i) * B(k, j); K(i, j) = v * sc; K(j, i) = v * sc; }
  return K;
}

// as many steps as can be asked for
static void longRun(mon::Rng& r, bool most) {
  FEStorage s; s.createNodes(2);
  auto* t = new TestElem<ElementLINE>; t->setNodes({1, 2}); t->nodeDofs = {{Dof::TEMP}, {Dof::TEMP}}; t->plan(r, 1); s.addElement(t);
  t->Ke = pd(r, 2, 0.5, 1); t->Ce = pd(r, 2, 0.5, 1); t->Me = MX::Zero(2, 2);
  LinearTransientFESolver solver; solver.attachFEStorage(&s); math::GaussDenseEquationSolver gs; solver.attachEquationSolver(&gs);
  long N = most ? 65535 : r.irange(32760, 65534); solver.numberOfTimesteps = (uint16)N; solver.time0 = 0; solver.time1 = 10; solver.addFix(1, Dof::TEMP, 1.0);
  std::vector<std::string> log; Spy* sp = new Spy(&s, &log, 0); solver.addPostProcessor(sp); long seen = 0; bool order = true;
  sp->at = [&](const char* ph, int k) { log.clear(); if (std::string(ph) != "process") return; seen++; if (k != seen) order = false; if (seen > N) throw 1; };
  try { solver.solve(); } catch (int) {}
  check("steps", seen == N && order, mon::Str() << "asked for " << N << " steps, made " << seen); mon::ev("long_runs");
}
static void run(mon::Rng& r, uint64_t c) {
  if (c == 11 || c == 12) return longRun(r, c == 11);
  auto mp = randModel(r, 12, 6, false, true);
  RandModel& m = *mp;
  if (!rowsFit(m)) { mon::ev("skipped_row_capacity"); return; }
  int kind = (int)r.irange(0, 2); // 0: M,C,K; 1: first order (M = 0); 2: undamped
  for (auto* e : m.els) {
    int n = (int)e->ids.size();
    e->Ke = pd(r, n, 0.3, r.range(0.5, 4)); e->Ce = kind == 2 ? MX(MX::Zero(n, n)) : pd(r, n, 0.3, r.range(0.1, 2)); e->Me = kind == 1 ? MX(MX::Zero(n, n)) : pd(r, n, 0.5, r.range(0.1, 2));
    for (int i = 0; i < n; i++) e->Fe(i) = r.chance(0.5) ? 0 : r.range(-1, 1);
  }
  std::vector<DofId> ids(m.dofs.begin(), m.dofs.end()), nd; for (auto& d : ids) if (!d.el) nd.push_back(d);
  if (nd.empty()) return;
  r.shuffle(nd);
  std::map<DofId, double> fix, load; size_t pos = 0; std::set<DofId> owned; std::vector<DofId> owners;
  int nmpc = r.chance(0.3) ? (int)r.irange(1, 2) : 0;
  for (int i = 0; i < nmpc && pos + 2 < nd.size(); i++) { owned.insert(nd[pos]); owners.push_back(nd[pos++]); }
  for (size_t i = pos; i < nd.size(); i++) if (r.chance(0.3)) fix[nd[i]] = r.chance(0.3) ? 0 : r.range(-2, 2);
  if (fix.size() == ids.size()) fix.erase(fix.begin());
  for (auto& o : owners) {
    std::vector<RandModel::Term> ts; std::set<DofId> used{o}; ts.push_back({o, r.sign() * r.range(0.5, 1.5)});
    for (int t = 0; t < 2; t++) { const DofId& d = r.pick(nd); if (!owned.count(d) && used.insert(d).second) ts.push_back({d, r.range(-1, 1)}); }
    double b = r.chance(0.5) ? 0 : r.range(-1, 1);
    Mpc* p = new Mpc; p->b = b; for (auto& t : ts) p->eq.push_back(MpcTerm(t.d.n, t.d.t, t.c));
    m.s->addMpc(p); m.mpcs.push_back(std::make_pair(ts, b));
  }
  std::vector<std::pair<DofId, double>> ll;
  for (int i = 0; i < 3; i++) { const DofId& d = r.pick(nd); if (!fix.count(d) && r.chance(0.6)) { double v = r.range(-3, 3); ll.push_back({d, v}); load[d] += v; } }

  LinearTransientFESolver solver; solver.attachFEStorage(m.s);
  math::GaussDenseEquationSolver gauss; solver.attachEquationSolver(&gauss);
  int N = r.chance(0.02) ? (int)r.irange(500, 2000) : r.chance(0.1) ? (int)r.irange(50, 200) : (int)r.irange(1, 25);
  double t0 = r.chance(0.5) ? 0 : r.chance(0.3) ? r.sign() * r.logrange(10, 1e7) : r.range(-3, 5), T = r.logrange(0.05, 50), a = 0.25, dl = 0.5, init = r.chance(0.4) ? 0 : r.range(-3, 3);
  if (r.chance(0.6)) { dl = r.chance(0.3) ? 1.0 : r.range(0.5, 1.8); a = 0.25 * (0.5 + dl) * (0.5 + dl) * (r.chance(0.3) ? 1 : r.range(1, 3)); if (r.chance(0.1)) { dl = 1; a = r.chance(0.5) ? 1.0 : 0.5625; } mon::ev("damped_newmark"); }
  else if (N < 8 && r.chance(0.3)) { a = 1.0 / 6; mon::ev("linear_acceleration"); }
  solver.numberOfTimesteps = (uint16)N; solver.time0 = t0; solver.time1 = t0 + T; solver.alpha = a; solver.delta = dl; solver.initValue = init;
  double dt = (solver.time1 - solver.time0) / N;
  for (auto& f : fix) solver.addFix(f.first.n, f.first.t, f.second);
  for (auto& l : ll) solver.addLoad(l.first.n, l.first.t, l.second);
  std::map<DofId, int> ix; for (size_t i = 0; i < ids.size(); i++) ix[ids[i]] = (int)i;
  int n = (int)ids.size(), nm = (int)m.mpcs.size();
  la::M K(n, n), C(n, n), M(n, n); la::V F(n, 0.0);
  for (auto* e : m.els) for (size_t i = 0; i < e->ids.size(); i++) { int I = ix[e->ids[i]]; F[I] += e->Fe(i); for (size_t j = 0; j < e->ids.size(); j++) { int J = ix[e->ids[j]]; K(I, J) += e->Ke(i, j); C(I, J) += e->Ce(i, j); M(I, J) += e->Me(i, j); } }
  for (auto& l : load) F[ix[l.first]] += l.second;
  // own time stepping
  std::vector<int> unk; for (int i = 0; i < n; i++) if (!fix.count(ids[i])) unk.push_back(i);
  int Q = (int)unk.size() + nm;
  la::M A(Q, Q), G(nm, n);
  for (int q = 0; q < nm; q++) for (auto& t : m.mpcs[q].first) G(q, ix[t.d]) += t.c;
  double a0 = 1 / (a * dt * dt), a1 = dl / (a * dt);
  for (size_t i = 0; i < unk.size(); i++) { for (size_t j = 0; j < unk.size(); j++) A(i, j) = K(unk[i], unk[j]) + a1 * C(unk[i], unk[j]) + a0 * M(unk[i], unk[j]); for (int q = 0; q < nm; q++) A(i, unk.size() + q) = A(unk.size() + q, i) = G(q, unk[i]); }
  la::M inv; if (!la::solveMulti(A, la::M::eye(Q), inv)) return;
  double cnd = A.normInf() * inv.normInf();
  if (!(cnd < 1e7)) { mon::ev("skipped_ill_conditioned"); return; }
  std::string w = mon::Str() << "kind " << kind << " dofs " << n << " fixed " << fix.size() << " mpc " << nm << " N " << N << " dt " << dt << " alpha " << a << " delta " << dl << " init " << init;

  la::V u(n, init), v(n, 0.0), acc(n, 0.0);
  std::vector<std::string> log; Spy* sp = new Spy(m.s, &log, 0); solver.addPostProcessor(sp);
  int seen = 0;
  auto at = [&](math::dVec* x, const DofId& d) { return (*x)[eqOf(*m.s, d) - 1]; };
  double um = std::fabs(init) + 1;
  for (auto& f : fix) um = std::max(um, std::fabs(f.second));
  sp->at = [&](const char* ph, int k) {
    std::string phs = ph;
    if (phs == "pre") { for (auto& d : ids) { check("initial", at(m.s->getU(), d) == init && at(m.s->getDU(), d) == 0 && at(m.s->getDDU(), d) == 0, w + " initial state of " + d.str()); } mon::ev("initial_states"); return; }
    if (phs != "process") return;
    seen++;
    la::V U(n), V(n), W(n);
    for (int i = 0; i < n; i++) { U[i] = at(m.s->getU(), ids[i]); V[i] = at(m.s->getDU(), ids[i]); W[i] = at(m.s->getDDU(), ids[i]); }
    if (seen == 1) for (auto& f : fix) u[ix[f.first]] = f.second; // prescribed DoFs take their values at once, at rest
    um = std::max(um, la::maxAbs(U));
    // relations of the scheme between the previously seen state and this one
    double vm = std::max(1e-12, std::max(la::maxAbs(V), la::maxAbs(v))), am = std::max(1e-12, std::max(la::maxAbs(W), la::maxAbs(acc)));
    for (int i = 0; i < n; i++) {
      double eu = u[i] + dt * v[i] + dt * dt * ((0.5 - a) * acc[i] + a * W[i]), ev = v[i] + dt * ((1 - dl) * acc[i] + dl * W[i]);
      mon::near("newmark.u", U[i], eu, 1e-10 * (um + dt * vm + dt * dt * am), mon::Str() << w << " step " << seen << " " << ids[i].str());
      mon::near("newmark.v", V[i], ev, 1e-10 * (vm + dt * am + um / dt * 1e-3), mon::Str() << w << " step " << seen << " " << ids[i].str());
      if (fix.count(ids[i])) { check("prescribed", U[i] == fix[ids[i]] && std::fabs(V[i]) <= 1e-9 * um / dt && std::fabs(W[i]) <= 1e-9 * um / dt / dt, w + " prescribed " + ids[i].str()); mon::ev("prescribed_checked"); }
    }
    // equations of motion (multipliers as reported)
    la::V res = (K * U) + (C * V) + (M * W) - F;
    for (int q = 0; q < nm; q++) {
      double lam = (*m.s->getU())[m.s->nDofs() + q];
      for (int i = 0; i < n; i++) res[i] += G(q, i) * lam;
      double gv = 0; for (int i = 0; i < n; i++) gv += G(q, i) * U[i];
      mon::near("constraint", gv, m.mpcs[q].second, 1e-9 * um, w); mon::ev("constraints_checked");
    }
    double sc = K.normInf() * um + C.normInf() * (vm + um / dt) + M.normInf() * (am + um / dt / dt) + la::maxAbs(F);
    for (int i : unk) mon::near("motion", res[i], 0, 1e-10 * sc, mon::Str() << w << " step " << seen << " " << ids[i].str());
    // own step from the previously seen state
    la::V p = (u * a0) + (v * (1 / (a * dt))) + (acc * (1 / (2 * a) - 1)), q2 = (u * a1) + (v * (dl / a - 1)) + (acc * (dt / 2 * (dl / a - 2)));
    la::V rhsF = F + (M * p) + (C * q2); la::V b(Q);
    la::V ucv(n, 0.0); for (auto& f : fix) ucv[ix[f.first]] = f.second;
    la::V kc = K * ucv; // velocities and accelerations of prescribed DoFs vanish
    la::V mc = M * (ucv * a0), cc = C * (ucv * a1);
    for (size_t i = 0; i < unk.size(); i++) b[i] = rhsF[unk[i]] - kc[unk[i]] - mc[unk[i]] - cc[unk[i]];
    la::V gu = G * ucv; for (int q = 0; q < nm; q++) b[unk.size() + q] = m.mpcs[q].second - gu[q];
    la::V x = inv * b; double worst = 0; for (size_t i = 0; i < unk.size(); i++) worst = std::max(worst, std::fabs(x[i] - U[unk[i]]));
    mon::near("state", worst, 0, (1e-13 * cnd * Q + 1e-10) * um, mon::Str() << w << " step " << seen);
    u = U; v = V; acc = W;
    check("step.number", k == seen, mon::Str() << w << " process called with " << k << " at step " << seen);
    mon::ev("states_checked");
  };
  solver.solve();
  check("steps", seen == N, mon::Str() << w << " made " << seen << " time steps");
  check("pp.order", !log.empty() && log.front() == "pre0" && log.back() == "post0" && (int)log.size() == seen + 2, "post-processor protocol");
  mon::sig(mon::Str() << kind << "/" << n << "/" << fix.size() << "/" << nm << "/" << N);
  mon::sample(w);
}
mon::Harness mon::harness() { return {"C07", 3000, 80000, run, nullptr}; }
