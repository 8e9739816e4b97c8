// C06: the incremental nonlinear solver reaches the equilibrium of every load step, or says it did not.
#include "fe.h"
#include "la.h"
#include "spy.h"
using namespace fe;
using mon::check;

// convex element: W = 1/2 u'Ku + sum c/4 (a.u)^4 - f.u ; supplies tangent and residual like the shipped nonlinear elements
struct NL { // description shared with the oracle
  std::vector<DofId> ids; la::M K; std::vector<la::V> a; std::vector<double> c; la::V f;
  la::V fint(const la::V& u) const { la::V r = K * u; for (size_t q = 0; q < a.size(); q++) { double s = la::dot(a[q], u); r = r + a[q] * (c[q] * s * s * s); } return r; }
  la::M tan(const la::V& u) const { la::M t = K; for (size_t q = 0; q < a.size(); q++) { double s = la::dot(a[q], u), g = 3 * c[q] * s * s; for (int i = 0; i < t.r; i++) for (int j = 0; j < t.r; j++) t(i, j) += g * a[q][i] * a[q][j]; } return t; }
};
struct Trace { int builds = 0, updates = 0; std::function<void()> onBuild; int nanAt = -1; };

template <class Base> struct NLElem : public Base {
  NL d; Trace* tr; bool first = false;
  void pre() override { for (auto& i : d.ids) if (i.el) this->getStorage().addElementDof(this->getElNum(), {i.t}); else this->getStorage().addNodeDof(i.n, {i.t}); }
  la::V u() { la::V v(d.ids.size()); FEStorage& s = this->getStorage(); for (size_t i = 0; i < v.size(); i++) v[i] = d.ids[i].el ? s.getElementDofSolution(d.ids[i].n, d.ids[i].t) : s.getNodeDofSolution(d.ids[i].n, d.ids[i].t); return v; }
  void buildK() override {
    if (first) { tr->builds++; if (tr->onBuild) tr->onBuild(); }
    FEStorage& s = this->getStorage(); la::V x = u(), f = d.fint(x); la::M t = d.tan(x);
    for (size_t i = 0; i < d.ids.size(); i++) {
      uint32 ei = eqOf(s, d.ids[i]);
      double v = d.f[i] - f[i]; if (first && tr->nanAt == tr->builds) v = std::numeric_limits<double>::quiet_NaN();
      s.addValueF(ei, v);
      for (size_t j = i; j < d.ids.size(); j++) s.addValueK(ei, eqOf(s, d.ids[j]), t(i, j));
    }
  }
  void update() override { if (first) tr->updates++; }
};

struct Mdl {
  FEStorage* s = nullptr; Trace tr; std::vector<NL> els; std::set<DofId> dofs;
  std::vector<std::vector<RandModel::Term>> mpcs;
  ~Mdl() { delete s; }
};

template <class Base> void addNL(Mdl& m, mon::Rng& r, uint32 nn, const std::vector<Dof::dofType>& pool, double nlin) {
  auto* e = new NLElem<Base>; e->tr = &m.tr; e->first = m.els.empty();
  uint32 N = m.s->nNodes();
  auto nodes = distinctNodes(r, nn, N, N);
  for (uint32 i = 0; i < nn; i++) e->getNodeNumber(i) = nodes[i];
  NL d;
  for (auto n : nodes) for (auto t : pool) if (r.chance(0.7)) d.ids.push_back({false, n, t});
  if (d.ids.empty()) d.ids.push_back({false, nodes[0], pool[0]});
  if (r.chance(0.3)) d.ids.push_back({true, m.s->nElements() + 1, Dof::HYDRO_PRESSURE});
  int n = (int)d.ids.size();
  la::M B(n, n); for (auto& v : B.a) v = r.range(-1, 1);
  d.K = B.t() * B + la::M::eye(n, 1.0);
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) d.K(j, i) = d.K(i, j);
  int na = (int)r.irange(0, 3);
  for (int q = 0; q < na; q++) { la::V a(n); for (auto& v : a) v = r.range(-1, 1); d.a.push_back(a); d.c.push_back(nlin * r.range(0.2, 2)); }
  d.f = la::V(n); for (auto& v : d.f) v = r.chance(0.5) ? 0 : r.range(-0.5, 0.5);
  e->d = d;
  m.s->addElement(e); m.els.push_back(d);
  for (auto& i : d.ids) m.dofs.insert(i);
}

struct State { la::V u; la::V lam; la::V r; }; // r: reaction on prescribed DoFs
// equilibrium at load fraction t, from the potential alone
static bool equilibrium(Mdl& m, const std::vector<DofId>& ids, std::map<DofId, int>& ix, const std::map<DofId, double>& fix, const std::map<DofId, double>& load, double t, State& st, double& cnd) {
  int n = (int)ids.size(), nm = (int)m.mpcs.size();
  std::vector<int> unk; for (int i = 0; i < n; i++) if (!fix.count(ids[i])) unk.push_back(i);
  for (auto& f : fix) st.u[ix[f.first]] = f.second * t;
  la::M C(nm, n); for (int q = 0; q < nm; q++) for (auto& tt : m.mpcs[q]) C(q, ix[tt.d]) += tt.c;
  int N = (int)unk.size() + nm;
  for (int it = 0; it < 60; it++) {
    la::M K(n, n); la::V f(n, 0.0);
    for (auto& e : m.els) {
      la::V x(e.ids.size()); for (size_t i = 0; i < x.size(); i++) x[i] = st.u[ix[e.ids[i]]];
      la::V fi = e.fint(x); la::M T = e.tan(x);
      for (size_t i = 0; i < x.size(); i++) { f[ix[e.ids[i]]] += fi[i] - e.f[i]; for (size_t j = 0; j < x.size(); j++) K(ix[e.ids[i]], ix[e.ids[j]]) += T(i, j); }
    }
    la::V cu = C * st.u;
    la::M A(N, N); la::V b(N);
    for (size_t i = 0; i < unk.size(); i++) {
      auto l = load.find(ids[unk[i]]);
      b[i] = (l == load.end() ? 0 : l->second * t) - f[unk[i]];
      for (size_t j = 0; j < unk.size(); j++) A(i, j) = K(unk[i], unk[j]);
      for (int q = 0; q < nm; q++) { A(i, unk.size() + q) = C(q, unk[i]); A(unk.size() + q, i) = C(q, unk[i]); }
    }
    for (int q = 0; q < nm; q++) b[unk.size() + q] = -cu[q];
    la::V x; if (!la::solve(A, b, x)) return false;
    double mx = 0; for (size_t i = 0; i < unk.size(); i++) { st.u[unk[i]] += x[i]; mx = std::max(mx, std::fabs(x[i])); }
    for (int q = 0; q < nm; q++) st.lam[q] = x[unk.size() + q];
    if (it == 0) { cnd = la::cond(A); if (!(cnd < 1e7)) return false; }
    if (mx < 1e-13 * (1 + la::maxAbs(st.u))) {
      st.r = la::V(n, 0.0);
      for (auto& fx : fix) { int i = ix[fx.first]; st.r[i] = f[i]; for (int q = 0; q < nm; q++) st.r[i] += C(q, i) * st.lam[q]; }
      return true;
    }
  }
  return false;
}

static void build(Mdl& m, mon::Rng& r, double nlin) {
  m.s = new FEStorage;
  uint32 N = (uint32)r.irange(3, 9); m.s->createNodes(N);
  std::vector<Dof::dofType> pool = {Dof::UX, Dof::UY, Dof::UZ, Dof::TEMP, Dof::ROTX}; r.shuffle(pool); pool.resize(r.irange(1, 3));
  int ne = (int)r.irange(1, 5);
  for (int i = 0; i < ne; i++) switch (r.irange(0, 2)) { case 0: addNL<ElementLINE>(m, r, 2, pool, nlin); break; case 1: addNL<ElementTRIANGLE>(m, r, 3, pool, nlin); break; default: addNL<ElementVERTEX>(m, r, 1, pool, nlin); }
}

static void steps(mon::Rng& r, uint64_t c) {
  Mdl m; build(m, r, r.pick(std::vector<double>{0, 0.3, 3, 30}));
  std::vector<DofId> ids(m.dofs.begin(), m.dofs.end()), nd; for (auto& d : ids) if (!d.el) nd.push_back(d);
  std::map<DofId, int> ix; for (size_t i = 0; i < ids.size(); i++) ix[ids[i]] = (int)i;
  r.shuffle(nd);
  std::map<DofId, double> fix, load; std::set<DofId> owned; size_t pos = 0;
  int nmpc = r.chance(0.4) ? (int)r.irange(1, 2) : 0;
  std::vector<DofId> owners; std::vector<Mpc*> mpcPtr;
  for (int i = 0; i < nmpc && pos + 2 < nd.size(); i++) { owned.insert(nd[pos]); owners.push_back(nd[pos++]); }
  for (size_t i = pos; i < nd.size(); i++) if (r.chance(0.3)) fix[nd[i]] = r.chance(0.3) ? 0 : r.range(-1.5, 1.5);
  if (fix.size() == ids.size()) fix.erase(fix.begin());
  for (auto& o : owners) {
    std::vector<RandModel::Term> ts; std::set<DofId> used{o}; ts.push_back({o, r.sign() * r.range(0.5, 1.5)});
    for (int t = 0; t < 2; t++) { const DofId& d = r.pick(nd); if (!owned.count(d) && used.insert(d).second) ts.push_back({d, r.range(-1, 1)}); }
    Mpc* p = new Mpc; p->b = 0; for (auto& t : ts) p->eq.push_back(MpcTerm(t.d.n, t.d.t, t.c));
    m.s->addMpc(p); m.mpcs.push_back(ts); mpcPtr.push_back(p);
  }
  std::vector<std::pair<DofId, double>> ll;
  for (int i = 0; i < 3; i++) { const DofId& d = r.pick(nd); if (!fix.count(d) && r.chance(0.7)) { double v = r.range(-3, 3); ll.push_back({d, v}); load[d] += v; } }
  int N = r.chance(0.15) ? (int)r.irange(20, 40) : (int)r.irange(1, 12);
  double eps = r.pick(std::vector<double>{3e-2, 1e-3, 1e-4, 3e-5});
  // expected states
  std::vector<State> ref; State st; st.u = la::V(ids.size(), 0.0); st.lam = la::V(m.mpcs.size(), 0.0); double cnd = 0, worst = 0;
  for (int k = 1; k <= N; k++) { if (!equilibrium(m, ids, ix, fix, load, (double)k / N, st, cnd)) { mon::ev("skipped_reference"); return; } worst = std::max(worst, cnd); ref.push_back(st); }
  std::string w = mon::Str() << "dofs " << ids.size() << " fixed " << fix.size() << " mpc " << m.mpcs.size() << " N " << N << " eps " << eps;

  NonlinearFESolver solver; solver.attachFEStorage(m.s);
  math::GaussDenseEquationSolver gauss; solver.attachEquationSolver(&gauss);
  solver.numberOfLoadsteps = (uint16)N; solver.convergenceCriteria = eps; solver.numberOfIterations = 200;
  if (r.chance(0.3)) { double s0 = r.range(-2, 2); solver.timeControl.setStartTime(s0); solver.timeControl.setEndTime(s0 + r.range(0.5, 20)); mon::ev("custom_interval"); }
  for (auto& f : fix) solver.addFix(f.first.n, f.first.t, f.second);
  for (auto& l : ll) solver.addLoad(l.first.n, l.first.t, l.second);
  auto uOf = [&](const DofId& d) { return d.el ? m.s->getElementDofSolution(d.n, d.t) : m.s->getNodeDofSolution(d.n, d.t); };
  auto snap = [&] { la::V v(ids.size()); for (size_t i = 0; i < ids.size(); i++) v[i] = uOf(ids[i]); return v; };
  size_t nUnk = ids.size() - fix.size();
  double kmax = 1; for (auto& e : m.els) kmax = std::max(kmax, e.K.normInf() + 30.0 * e.a.size());
  la::V last; int steps = 0; double tolU = 3 * eps * eps * ids.size() + 1e-11;
  m.tr.onBuild = [&] { last = snap(); };
  std::vector<std::string> log;
  Spy* sp = new Spy(m.s, &log, 0); solver.addPostProcessor(sp);
  int buildsBefore = 0;
  sp->at = [&](const char* ph, int k) {
    if (std::string(ph) != "process") return;
    steps++;
    if (k < 1 || k > N) return;
    la::V u = snap();
    double inc = 0; for (size_t i = 0; i < ids.size(); i++) if (!fix.count(ids[i])) inc += std::fabs(u[i] - last[i]);
    // the last correction of a step reported as converged, in units of the criterion, was below the criterion
    mon::near("last.increment", inc / nUnk, 0, eps * eps * (1 + 1e-6) + 1e-14, mon::Str() << w << " step " << k);
    for (size_t i = 0; i < ids.size(); i++) {
      if (fix.count(ids[i])) mon::near("prescribed", u[i], fix[ids[i]] * k / N, 1e-9 * std::fabs(fix[ids[i]]) + 1e-15, mon::Str() << w << " step " << k << " " << ids[i].str());
      else mon::near("equilibrium", u[i], ref[k - 1].u[i], tolU, mon::Str() << w << " step " << k << " " << ids[i].str());
      if (!ids[i].el) {
        double R = m.s->getReaction(ids[i].n, ids[i].t);
        if (fix.count(ids[i])) { mon::near("reaction", R, ref[k - 1].r[i], 20 * kmax * tolU + 1e-9, mon::Str() << w << " step " << k << " " << ids[i].str()); mon::ev("reactions_checked"); }
        else mon::near("load.fraction", R, load.count(ids[i]) ? load[ids[i]] * k / N : 0.0, 1e-9 * (load.count(ids[i]) ? std::fabs(load[ids[i]]) : 0) + 1e-14, mon::Str() << w << " step " << k);
      }
    }
    for (size_t q = 0; q < m.mpcs.size(); q++) mon::near("multiplier", (*m.s->getU())[mpcPtr[q]->eqNum - 1], ref[k - 1].lam[q], 20 * kmax * tolU + 1e-9, mon::Str() << w << " step " << k << " constraint " << q);
    for (auto& ts : m.mpcs) { double v = 0; for (auto& t : ts) v += t.c * uOf(t.d); mon::near("constraint", v, 0, 1e-9 * (1 + la::maxAbs(u)), w); mon::ev("constraints_checked"); }
    check("updated", m.tr.updates == m.tr.builds, "element results were not updated once per iteration");
    mon::ev("iterations", m.tr.builds - buildsBefore); buildsBefore = m.tr.builds;
    mon::ev("converged_states_checked");
  };
  solver.solve();
  check("steps", steps == N, mon::Str() << w << " made " << steps << " load steps");
  std::vector<std::string> exp; exp.push_back("pre0"); for (int k = 1; k <= N; k++) exp.push_back("process0:" + std::to_string(k)); exp.push_back("post0");
  check("pp.protocol", log == exp, w);
  check("iterations.total", solver.timeControl.getTotalNumberOfEquilibriumSteps() == m.tr.builds, mon::Str() << w << " reported " << solver.timeControl.getTotalNumberOfEquilibriumSteps() << " iterations, observed " << m.tr.builds);
  check("prescribed.end", [&] { for (auto& f : fix) if (!(std::fabs(uOf(f.first) - f.second) <= 1e-12 * std::fabs(f.second))) return false; return true; }(), w);
  mon::sig(mon::Str() << ids.size() << "/" << fix.size() << "/" << m.mpcs.size() << "/" << N << "/" << m.tr.builds);
  mon::sample(w + " iterations " + std::to_string(m.tr.builds));
}

// not enough iterations, or a state that blows up: the analysis must not return as if solved
static void failing(mon::Rng& r, uint64_t c) {
  bool nan = r.chance(0.5);
  uint64_t seed = r.next();
  double eps = r.pick(std::vector<double>{1e-1, 1e-2, 1e-3, 1e-5});
  int maxIt = (int)r.irange(1, 6), N = (int)r.irange(1, 3), nanAt = (int)r.irange(1, 4);
  int rc = inChild("failing", [&]() -> int {
    mon::Rng q(seed);
    Mdl m; build(m, q, 30);
    std::vector<DofId> ids(m.dofs.begin(), m.dofs.end());
    NonlinearFESolver solver; solver.attachFEStorage(m.s);
    math::GaussDenseEquationSolver gauss; solver.attachEquationSolver(&gauss);
    solver.numberOfLoadsteps = (uint16)N; solver.convergenceCriteria = eps; solver.numberOfIterations = nan ? 50 : (uint16)maxIt;
    for (auto& d : ids) if (!d.el && q.chance(0.6)) solver.addLoad(d.n, d.t, q.range(-9, 9));
    if (nan) m.tr.nanAt = nanAt;
    la::V last;
    auto snap = [&] { la::V v(ids.size()); for (size_t i = 0; i < ids.size(); i++) v[i] = ids[i].el ? m.s->getElementDofSolution(ids[i].n, ids[i].t) : m.s->getNodeDofSolution(ids[i].n, ids[i].t); return v; };
    m.tr.onBuild = [&] { last = snap(); };
    std::vector<std::string> log; Spy* sp = new Spy(m.s, &log, 0); solver.addPostProcessor(sp); bool loose = false;
    sp->at = [&](const char* ph, int) {
      if (std::string(ph) != "process") return;
      la::V u = snap(); double inc = 0; for (size_t i = 0; i < u.size(); i++) inc += std::fabs(u[i] - last[i]);
      if (!(inc / u.size() <= eps * eps * (1 + 1e-6) + 1e-14)) loose = true;
    };
    solver.solve();
    if (nan && m.tr.builds >= nanAt) return 7;
    return loose ? 8 : 0;
  });
  if (nan) { check("nan.accepted", rc != 7, "an iteration produced NaN and the analysis went on to finish"); if (rc == -1) mon::ev("nan_reported"); }
  else { check("unconverged.accepted", rc != 8 && rc != 7, mon::Str() << "a step was delivered although its last correction exceeds the criterion (limit " << maxIt << " iterations)"); if (rc == -1) mon::ev("nonconvergence_reported"); }
  mon::sig(mon::Str() << "fail" << nan << maxIt << N << nanAt << (seed % 1000));
}
// the limit on iterations is the number of corrections a step may take: enough is enough, one less is a failure
static void limit(mon::Rng& r) {
  uint64_t seed = r.next(); double eps = r.pick(std::vector<double>{1e-1, 1e-2, 1e-3}), nlin = r.pick(std::vector<double>{0, 1, 10}); int N = (int)r.irange(1, 3);
  auto go = [&](int lim) { return inChild("limit", [&]() -> int {
    mon::Rng q(seed); Mdl m; build(m, q, nlin);
    NonlinearFESolver solver; solver.attachFEStorage(m.s); math::GaussDenseEquationSolver gauss; solver.attachEquationSolver(&gauss);
    solver.numberOfLoadsteps = (uint16)N; solver.convergenceCriteria = eps; solver.numberOfIterations = (uint16)lim;
    for (auto& d : m.dofs) if (!d.el && q.chance(0.6)) solver.addLoad(d.n, d.t, q.range(-4, 4));
    std::vector<std::string> log; Spy* sp = new Spy(m.s, &log, 0); solver.addPostProcessor(sp); int before = 0, most = 0, made = 0;
    sp->at = [&](const char* ph, int) { if (std::string(ph) != "process") return; made++; most = std::max(most, (int)m.tr.builds - before); before = m.tr.builds; };
    solver.solve();
    return made == N && most >= 1 && most < 100 ? most : 0;
  }); };
  int need = go(90); if (need < 1) { mon::ev("limit_skipped"); return; }
  std::string w = mon::Str() << "steps " << N << ", criterion " << eps << ", at most " << need << " iterations needed";
  check("limit.enough", go(need) == need, w + ", not accepted with just that limit");
  if (need > 1) { check("limit.exceeded", go(need - 1) == -1, w + ", one iteration less is accepted too"); mon::ev("iteration_limits"); }
  mon::sig(mon::Str() << "lim" << need << "." << N << eps << (seed % 100));
}
// plain constraint with a right-hand side
static void inhomogeneous(mon::Rng& r, uint64_t c) {
  uint64_t seed = r.next();
  int rc = inChild("inhomogeneous", [&]() -> int {
    mon::Rng q(seed);
    Mdl m; m.s = new FEStorage; m.s->createNodes(3);
    addNL<ElementTRIANGLE>(m, q, 3, {Dof::UX, Dof::UY}, 0.0);
    std::vector<DofId> nd; for (auto& d : m.dofs) if (!d.el) nd.push_back(d);
    Mpc* p = new Mpc; p->b = 0.5; p->eq.push_back(MpcTerm(nd[0].n, nd[0].t, 1.0)); m.s->addMpc(p);
    NonlinearFESolver solver; solver.attachFEStorage(m.s);
    math::GaussDenseEquationSolver gauss; solver.attachEquationSolver(&gauss);
    solver.numberOfLoadsteps = 2;
    solver.solve();
    return std::fabs(m.s->getNodeDofSolution(nd[0].n, nd[0].t) - 0.5) < 1e-6 ? 0 : 9;
  });
  mon::ev("inhomogeneous_constraints");
  check("constraint.inhomogeneous", rc == 0, rc == -1 ? "the analysis does not converge" : "the constraint is violated");
}
static void run(mon::Rng& r, uint64_t c) {
  if (c == 5) return inhomogeneous(r, c);
  if (c % 40 == 19) return limit(r);
  if (c % 10 == 9) failing(r, c); else steps(r, c);
}
mon::Harness mon::harness() { return {"C06", 8000, 200000, run, nullptr}; }
