// C05: a linear static analysis returns the state that satisfies equilibrium, prescribed values and constraints.
#include "fe.h"
#include "phys.h"
#include "la.h"
#include "spy.h"
using namespace fe;
using mon::check;

struct Ref { std::map<DofId, double> u, rc; std::vector<double> lam; double cond; };

// the expected state, from element contributions alone
static bool reference(RandModel& m, const std::map<DofId, double>& fix, const std::map<DofId, double>& load, Ref& out) {
  std::vector<DofId> ids(m.dofs.begin(), m.dofs.end());
  std::map<DofId, int> ix; for (size_t i = 0; i < ids.size(); i++) ix[ids[i]] = (int)i;
  int n = (int)ids.size(), nm = (int)m.mpcs.size();
  la::M K(n + nm, n + nm); la::V F(n + nm, 0.0);
  for (auto* e : m.els) for (size_t i = 0; i < e->ids.size(); i++) { F[ix[e->ids[i]]] += e->Fe(i); for (size_t j = 0; j < e->ids.size(); j++) K(ix[e->ids[i]], ix[e->ids[j]]) += e->Ke(i, j); }
  for (int q = 0; q < nm; q++) { for (auto& t : m.mpcs[q].first) { K(n + q, ix[t.d]) += t.c; K(ix[t.d], n + q) += t.c; } F[n + q] = m.mpcs[q].second; }
  std::vector<int> unk; for (int i = 0; i < n; i++) if (!fix.count(ids[i])) unk.push_back(i);
  for (int q = 0; q < nm; q++) unk.push_back(n + q);
  la::M A((int)unk.size(), (int)unk.size()); la::V b(unk.size());
  for (size_t i = 0; i < unk.size(); i++) {
    double v = F[unk[i]];
    if (unk[i] < n) { auto l = load.find(ids[unk[i]]); if (l != load.end()) v += l->second; }
    for (auto& f : fix) v -= K(unk[i], ix[f.first]) * f.second;
    b[i] = v;
    for (size_t j = 0; j < unk.size(); j++) A((int)i, (int)j) = K(unk[i], unk[j]);
  }
  la::M B(A.r, A.r + 1), X; for (int i = 0; i < A.r; i++) { B(i, i) = 1; B(i, A.r) = b[i]; }
  if (!la::solveMulti(A, B, X)) return false;
  la::M inv(A.r, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.r; j++) inv(i, j) = X(i, j);
  out.cond = A.normInf() * inv.normInf();
  la::V U(n + nm, 0.0);
  for (auto& f : fix) U[ix[f.first]] = f.second;
  for (size_t i = 0; i < unk.size(); i++) U[unk[i]] = X((int)i, A.r);
  la::V KU = K * U;
  for (int i = 0; i < n; i++) { out.u[ids[i]] = U[i]; if (fix.count(ids[i])) out.rc[ids[i]] = KU[i] - F[i]; }
  for (int q = 0; q < nm; q++) out.lam.push_back(U[n + q]);
  return out.cond == out.cond;
}

static void genericCase(mon::Rng& r, uint64_t c) {
  auto mp = randModel(r, 16, 9, false, true);
  RandModel& m = *mp;
  if (!rowsFit(m)) { mon::ev("skipped_row_capacity"); return; }
  // positive definite element matrices
  double sc = r.chance(0.3) ? r.logrange(1e-3, 1e6) : 1.0, us = r.chance(0.2) ? r.logrange(1e-14, 1e-3) : 1.0; // stiffness and displacement scale
  if (us != 1) mon::ev("tiny_displacements");
  for (auto* e : m.els) {
    int n = (int)e->ids.size();
    MX B(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = r.range(-1, 1);
    MX K = MX::Zero(n, n);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = i == j ? 0.5 : 0; for (int k = 0; k < n; k++) v += B(k, i) * B(k, j); K(i, j) = v * sc; K(j, i) = v * sc; }
    e->Ke = K;
    for (int i = 0; i < n; i++) e->Fe(i) = r.chance(0.4) ? 0 : r.range(-1, 1) * sc * us;
  }
  std::vector<DofId> nd; for (auto& d : m.dofs) if (!d.el) nd.push_back(d);
  if (nd.empty()) return;
  r.shuffle(nd);
  // constraints: each owns one DoF nothing else constrains; the other terms are free or prescribed
  std::map<DofId, double> fix, load;
  std::set<DofId> owned;
  size_t pos = 0;
  int nmpc = r.chance(0.6) ? (int)r.irange(0, 4) : 0;
  std::vector<DofId> owners;
  for (int i = 0; i < nmpc && pos + 2 < nd.size(); i++) { owners.push_back(nd[pos]); owned.insert(nd[pos]); pos++; }
  double pf = r.pick(std::vector<double>{0, 0.1, 0.3, 0.6});
  for (size_t i = pos; i < nd.size(); i++) if (r.chance(pf)) fix[nd[i]] = r.chance(0.3) ? 0.0 : r.chance(0.15) ? r.sign() * r.logrange(1e-15, 1e-3) * us : r.range(-2, 2) * us;
  if (fix.size() == m.dofs.size()) fix.clear();
  for (auto& o : owners) {
    std::vector<RandModel::Term> terms; std::set<DofId> used; used.insert(o);
    terms.push_back({o, r.sign() * r.range(0.5, 2)});
    int nt = (int)r.irange(0, 3);
    for (int t = 0; t < nt; t++) { const DofId& d = r.pick(nd); if (!owned.count(d) && used.insert(d).second) terms.push_back({d, r.range(-1, 1)}); }
    r.shuffle(terms);
    double b = r.chance(0.4) ? 0 : r.range(-1, 1) * us;
    Mpc* p = new Mpc; p->b = b;
    for (auto& t : terms) { // a DoF may appear in several terms of one equation: their coefficients add up
      double part = r.chance(0.2) ? r.range(-1, 1) : 0;
      p->eq.push_back(MpcTerm(t.d.n, t.d.t, t.c - part));
      if (part != 0) { if (r.chance(0.5)) p->eq.push_back(MpcTerm(t.d.n, t.d.t, part)); else p->eq.push_front(MpcTerm(t.d.n, t.d.t, part)); mon::ev("repeated_terms"); }
    }
    m.s->addMpc(p); m.mpcPtr.push_back(p); m.mpcs.push_back(std::make_pair(terms, b));
  }
  std::vector<std::pair<DofId, double>> loadList;
  int nl = (int)r.irange(0, 6);
  for (int i = 0; i < nl; i++) { const DofId& d = r.pick(nd); double v = r.range(-3, 3) * sc * us; loadList.push_back({d, v}); load[d] += v; if (fix.count(d)) mon::ev("loads_on_prescribed"); }
  // the forces acting on a prescribed DoF do not depend on loads put there
  Ref ref;
  if (!reference(m, fix, load, ref) || ref.cond > 1e9) { mon::ev("skipped_ill_conditioned"); return; }

  math::GaussDenseEquationSolver gauss;
#ifdef NLA3D_USE_MKL
  math::PARDISO_equationSolver pardiso;
#endif
  std::vector<std::string> log;
  std::map<DofId, double> seen;
  LinearFESolver solver;
  solver.attachFEStorage(m.s);
  const char* who = "default";
  int which = (int)r.irange(0, 2);
  if (which == 0) { solver.attachEquationSolver(&gauss); who = "gauss"; }
#ifdef NLA3D_USE_MKL
  if (which == 1) { solver.attachEquationSolver(&pardiso); who = "pardiso"; }
#endif
  std::vector<DofId> fl; for (auto& f : fix) fl.push_back(f.first);
  r.shuffle(fl);
  for (auto& d : fl) solver.addFix(d.n, d.t, fix[d]);
  for (auto& l : loadList) solver.addLoad(l.first.n, l.first.t, l.second);
  int nspy = (int)r.irange(0, 4);
  for (int i = 0; i < nspy; i++) {
    Spy* s = new Spy(m.s, &log, i);
    s->at = [&](const char* ph, int) { if (ph[1] == 'r' && ph[2] == 'o') for (auto& d : nd) seen[d] = m.s->getNodeDofSolution(d.n, d.t); };
    check("pp.number", solver.addPostProcessor(s) == i + 1, "post-processor number");
  }
  solver.solve();
  std::string w = mon::Str() << who << " cond " << ref.cond << " dofs " << m.dofs.size() << " fixed " << fix.size() << " mpc " << m.mpcs.size();
  double um = 1e-300; for (auto& p : ref.u) um = std::max(um, std::fabs(p.second));
  double xm = um; for (double l : ref.lam) xm = std::max(xm, std::fabs(l)); // the solved vector holds the multipliers, too
  double tol = 1e-13 * ref.cond * m.dofs.size() * xm + 1e-14 * um + 1e-18; // below 1e-18 values are noise next to the cut-off of the products
  for (auto& p : ref.u) {
    double got = p.first.el ? m.s->getElementDofSolution(p.first.n, p.first.t) : m.s->getNodeDofSolution(p.first.n, p.first.t);
    if (fix.count(p.first)) { check("prescribed.exact", got == p.second, mon::Str() << w << " " << p.first.str() << " prescribed " << p.second << " got " << got); mon::ev("prescribed_checked"); }
    else { mon::near("solution", got, p.second, tol, w + " " + p.first.str()); mon::ev("unknowns_checked"); }
  }
  // constraints hold
  for (size_t q = 0; q < m.mpcs.size(); q++) {
    double v = 0, mag = std::fabs(m.mpcs[q].second);
    for (auto& t : m.mpcs[q].first) { double u = m.s->getNodeDofSolution(t.d.n, t.d.t); v += t.c * u; mag += std::fabs(t.c * u); }
    mon::near("constraint", v, m.mpcs[q].second, 1e-11 * (mag + um) + tol, w + " constraint " + std::to_string(q));
    mon::ev("constraints_checked");
  }
  // reactions and applied loads as reported
  double rm = 0; for (auto& p : ref.rc) rm = std::max(rm, std::fabs(p.second));
  for (auto& l : load) rm = std::max(rm, std::fabs(l.second));
  rm = std::max(rm, std::max(um * sc, xm * std::max(1.0, sc) * (m.mpcs.empty() ? 0 : 1)));
  for (auto& d : nd) {
    double got = m.s->getReaction(d.n, d.t);
    double exp = fix.count(d) ? ref.rc[d] : load.count(d) ? load[d] : 0.0;
    mon::near(fix.count(d) ? "reaction" : "external.load", got, exp, fix.count(d) ? 1e-13 * ref.cond * m.dofs.size() * rm + 1e-11 * rm + 1e-17 * sc : 1e-13 * rm, w + " " + d.str());
    if (fix.count(d)) mon::ev("reactions_checked");
    check("eq.reaction", got == m.s->getReaction(m.s->getNodeDofEqNumber(d.n, d.t)), "reaction lookups disagree");
  }
  // post-processors: pre of all, process(1) of all with the final state, post of all
  std::vector<std::string> exp;
  for (const char* ph : {"pre%d", "process%d:1", "post%d"}) for (int i = 0; i < nspy; i++) { char b[32]; snprintf(b, sizeof b, ph, i); exp.push_back(b); }
  check("pp.protocol", log == exp, mon::Str() << "calls seen: " << log.size());
  if (nspy) { for (auto& p : seen) check("pp.final", p.second == m.s->getNodeDofSolution(p.first.n, p.first.t), "post-processor saw another state than the final one"); mon::ev("postprocessor_calls", log.size()); }
  mon::sig(mon::Str() << m.dofs.size() << "/" << fix.size() << "/" << m.mpcs.size() << "/" << load.size() << who);
  mon::sample(mon::Str() << m.dofs.size() << " DoFs, " << fix.size() << " prescribed, " << m.mpcs.size() << " MPC, " << load.size() << " loaded, " << who);
}

// shipped elements: residual of the assembled system and global balance of loads and reactions
static void physCase(mon::Rng& r, uint64_t c) {
  int family = (int)r.irange(0, 4);
  Phys p = randPhys(r, family);
  FEStorage s; s.createNodes((uint32)p.pos.size());
  for (size_t i = 0; i < p.pos.size(); i++) for (int k = 0; k < 3; k++) s.getNode(i + 1).pos[k] = p.pos[i](k);
  for (auto& e : p.els) { Element* x = mk(s, e); for (size_t k = 0; k < e.n.size(); k++) x->getNodeNumber(k) = e.n[k] + 1; }
  bool mech = family == 0 || family == 1 || family == 4;
  std::set<int> inEl; for (auto& e : p.els) for (int n : e.n) inEl.insert(n);
  LinearFESolver solver; solver.attachFEStorage(&s);
  math::GaussDenseEquationSolver gauss; solver.attachEquationSolver(&gauss);
  std::map<std::pair<int, int>, double> fix, load;
  std::vector<int> nodes(inEl.begin(), inEl.end()); r.shuffle(nodes);
  std::vector<Dof::dofType> ts = mech ? std::vector<Dof::dofType>{Dof::UX, Dof::UY, Dof::UZ} : std::vector<Dof::dofType>{Dof::TEMP};
  size_t keepFree = family == 0 ? std::min<size_t>(1, nodes.size()) : nodes.size() - std::min<size_t>(nodes.size() - 1, 3 + r.irange(0, 3));
  // trusses: only one free node, which must be held by enough bars; others prescribed
  for (size_t i = 0; i < nodes.size(); i++) {
    bool fx = i >= keepFree;
    for (auto t : ts) { if (fx) fix[{nodes[i], t}] = r.chance(0.4) ? 0 : r.range(-.1, .1); else if (r.chance(0.5)) load[{nodes[i], t}] = r.range(-2, 2); }
  }
  if (family == 0) { std::set<int> nb; for (auto& e : p.els) if (e.n[0] == nodes[0]) nb.insert(e.n[1]); else if (e.n[1] == nodes[0]) nb.insert(e.n[0]); if (nb.size() < 4) { mon::ev("skipped_mechanism"); return; } }
  for (auto& f : fix) solver.addFix(f.first.first + 1, (Dof::dofType)f.first.second, f.second);
  for (auto& l : load) solver.addLoad(l.first.first + 1, (Dof::dofType)l.first.second, l.second);
  solver.solve();
  MX K = dense(s.getK()); VX U = vec(s.getU()), F = vec(s.getF()), R = vec(s.getR());
  VX res = K * U - F - R;
  double scale = K.cwiseAbs().maxCoeff() * U.cwiseAbs().maxCoeff() * K.rows() + F.cwiseAbs().maxCoeff() + R.cwiseAbs().maxCoeff();
  double worst = 0; for (int i = 0; i < res.size(); i++) { if (!(std::fabs(res(i)) <= worst)) worst = std::fabs(res(i)); }
  mon::near("phys.equilibrium", worst, 0, 1e-11 * scale, mon::Str() << "family " << family);
  for (auto& f : fix) check("phys.prescribed", s.getNodeDofSolution(f.first.first + 1, (Dof::dofType)f.first.second) == f.second, "prescribed value");
  for (auto& l : load) check("phys.load", s.getReaction(l.first.first + 1, (Dof::dofType)l.first.second) == l.second, "external load");
  mon::ev("phys_dofs_in_equilibrium", res.size());
  if (mech) { // thermal initial forces are self-equilibrated, so loads + reactions balance in force and moment
    V3 f(0, 0, 0), mo(0, 0, 0); double fm = 0;
    for (int n : inEl) { V3 q(s.getReaction(n + 1, Dof::UX), s.getReaction(n + 1, Dof::UY), s.getReaction(n + 1, Dof::UZ)); f += q; mo += p.pos[n].cross(q); fm += q.norm() * (1 + p.pos[n].norm()); }
    double un = U.cwiseAbs().maxCoeff() * K.cwiseAbs().maxCoeff();
    mon::near("phys.force.balance", f.norm(), 0, 1e-10 * (fm + un), mon::Str() << "family " << family);
    mon::near("phys.moment.balance", mo.norm(), 0, 1e-10 * (fm + un), mon::Str() << "family " << family);
    mon::ev("global_balances");
  }
  for (uint32 n = 1; n <= s.nNodes(); n++) {
    double a[3], b[3]; s.getNodePosition(n, a, false); s.getNodePosition(n, b, true);
    for (int k = 0; k < 3; k++) { double u = mech && s.isNodeDofUsed(n, ts[k]) ? s.getNodeDofSolution(n, ts[k]) : 0; check("phys.position", a[k] == p.pos[n - 1](k) && b[k] == a[k] + u, "deformed position"); }
  }
  mon::sig(mon::Str() << "phys" << family << "/" << p.els.size() << "/" << fix.size());
}

static void run(mon::Rng& r, uint64_t c) { if (c % 4 == 3) physCase(r, c); else genericCase(r, c); }
mon::Harness mon::harness() { return {"C05", 12000, 300000, run, nullptr}; }
