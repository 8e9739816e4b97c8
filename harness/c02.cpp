// C02: global matrices and load vector are exactly the sum of the element contributions, each at the
// rows/columns of the DoFs it was stated for, plus one bordered row per constraint.
#include "fe.h"
#include "phys.h"
using namespace fe;
using mon::check;

static void expected(RandModel& m, MX& K, MX& C, MX& M, VX& F) {
  size_t n = m.dofs.size() + m.mpcs.size();
  K = MX::Zero(n, n); C = K; M = K; F = VX::Zero(n);
  for (auto* e : m.els) {
    std::vector<uint32> eq; for (auto& d : e->ids) eq.push_back(eqOf(*m.s, d) - 1);
    for (size_t i = 0; i < eq.size(); i++) {
      F(eq[i]) += e->Fe(i);
      for (size_t j = 0; j < eq.size(); j++) { K(eq[i], eq[j]) += e->Ke(i, j); C(eq[i], eq[j]) += e->Ce(i, j); M(eq[i], eq[j]) += e->Me(i, j); }
    }
  }
  for (size_t k = 0; k < m.mpcs.size(); k++) {
    uint32 q = m.mpcPtr[k]->eqNum - 1;
    F(q) = m.mpcs[k].second;
    for (auto& t : m.mpcs[k].first) { uint32 e = eqOf(*m.s, t.d) - 1; K(q, e) += t.c; K(e, q) += t.c; }
  }
}
static void cmp(const std::string& key, const MX& a, const MX& b, const std::string& where) {
  if (!check(key + ".size", a.rows() == b.rows() && a.cols() == b.cols(), mon::Str() << where << " size " << a.rows() << " expected " << b.rows())) return;
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) {
    if (!(a(i, j) == b(i, j))) { mon::fail(key, mon::Str() << where << " entry (" << i + 1 << "," << j + 1 << ") is " << a(i, j) << " expected " << b(i, j)); return; }
  }
  mon::ev("entries_compared", a.size());
}

static void synthetic(mon::Rng& r) {
  std::unique_ptr<RandModel> mp;
  for (;;) { mp = randModel(r, 40, 25); if (r.chance(0.35)) addCollections(*mp, r); if (rowsFit(*mp)) break; }
  RandModel& m = *mp;
  mon::note(mon::Str() << "nodes " << m.nNodes << " els " << m.els.size() << " dofs " << m.dofs.size() << " mpcs " << m.mpcs.size());
  bool transient = r.chance(0.6);
  int rounds = (int)r.irange(1, 2);
  for (int round = 0; round < rounds; round++) {
    chooseFixed(m, r, r.pick(std::vector<double>{0.0, 0.15, 0.5, 0.85}));
    m.s->setTransient(transient);
    m.s->initDofs(); announceFixed(m, r); m.s->assignEquationNumbers(); m.s->initSolutionData();
    int passes = (int)r.irange(1, 3);
    for (int p = 0; p < passes; p++) {
      if (p > 0 && r.chance(0.7)) { // contributions change between assemblies (nonlinear analysis)
        for (auto* e : m.els) { double f = (double)r.irange(-3, 3); e->Ke *= f; e->Fe *= (double)r.irange(-2, 2); e->Ce *= f; e->Me *= (double)r.irange(-1, 2); }
        for (size_t k = 0; k < m.mpcs.size(); k++) { double nb = (double)r.irange(-9, 9); m.mpcs[k].second = nb; bool own = !m.inColl.count(k); if (own) m.mpcPtr[k]->b = nb;
          auto it = m.mpcPtr[k]->eq.begin(); for (auto& t : m.mpcs[k].first) { t.c = (double)r.irange(-9, 9); if (own) it->coef = t.c; it++; } }
      }
      // external loads must survive assembly untouched
      std::vector<double> rr; for (uint32 i = 0; i < m.s->getR()->size(); i++) { rr.push_back((double)r.irange(-5, 5)); (*m.s->getR())[i] = rr.back(); }
      std::vector<double> uu; for (uint32 i = 0; i < m.s->getU()->size(); i++) { uu.push_back(r.range(-1, 1)); (*m.s->getU())[i] = uu.back(); }
      m.s->assembleGlobalEqMatrices();
      MX K, C, M; VX F; expected(m, K, C, M, F);
      std::string w = mon::Str() << "round " << round << " pass " << p;
      cmp("K", dense(m.s->getK()), K, w + " K");
      VX f = vec(m.s->getF());
      cmp("F", f, F, w + " F");
      if (transient) {
        cmp("C", dense(m.s->getC()), C, w + " C"); cmp("M", dense(m.s->getM()), M, w + " M");
        mon::ev("transient_assemblies");
        for (int b = 1; b <= 2; b++) check("shared.shape", m.s->getK()->block(b)->nValues() == m.s->getC()->block(b)->nValues() && m.s->getK()->block(b)->nValues() == m.s->getM()->block(b)->nValues(), "K, C, M must share one sparsity");
        check("rows.K", m.s->getK()->nRows() == K.rows(), "K row count");
        check("rows.C", m.s->getC()->nRows() == K.rows(), mon::Str() << "C reports " << m.s->getC()->nRows() << " rows, expected " << K.rows());
        check("rows.M", m.s->getM()->nRows() == K.rows(), mon::Str() << "M reports " << m.s->getM()->nRows() << " rows, expected " << K.rows());
      }
      for (size_t i = 0; i < rr.size(); i++) check("R.untouched", (*m.s->getR())[i] == rr[i], "external load vector changed by assembly");
      for (size_t i = 0; i < uu.size(); i++) check("U.untouched", (*m.s->getU())[i] == uu[i], "solution vector changed by assembly");
      mon::ev("assemblies");
      if (m.mpcs.size()) mon::ev("assemblies_with_constraints");
      if (m.inColl.size()) mon::ev("assemblies_with_collections");
    }
    m.s->deleteSolutionData();
  }
  mon::sig(mon::Str() << m.nNodes << "/" << m.els.size() << "/" << m.dofs.size() << "/" << m.fixed.size() << "/" << m.mpcs.size() << "/" << transient);
  mon::sample(mon::Str() << m.nNodes << " nodes, " << m.els.size() << " elements, " << m.dofs.size() << " DoFs, " << m.mpcs.size() << " MPC, transient=" << transient);
}

// ---- shipped elements: the assembled matrix does not depend on how nodes and elements are numbered
static std::map<std::pair<std::string, std::string>, double> assemblePhys(const Phys& p, const std::vector<uint32>& nodePerm, const std::vector<uint32>& elPerm,
                                                                           const std::set<std::pair<int, int>>& fixed, bool transient, const std::vector<double>& u) {
  FEStorage s; s.createNodes((uint32)p.pos.size());
  std::vector<uint32> inv(p.pos.size());
  for (size_t i = 0; i < p.pos.size(); i++) { inv[nodePerm[i]] = (uint32)i; for (int k = 0; k < 3; k++) s.getNode(nodePerm[i] + 1).pos[k] = p.pos[i](k); }
  for (size_t i = 0; i < p.els.size(); i++) { auto& e = p.els[elPerm[i]]; Element* x = mk(s, e); for (size_t k = 0; k < e.n.size(); k++) x->getNodeNumber(k) = nodePerm[e.n[k]] + 1; }
  s.setTransient(transient);
  s.initDofs();
  std::vector<DofId> ids;
  for (uint32 n = 1; n <= s.nNodes(); n++) for (int t = 0; t < Dof::UNDEFINED; t++) if (s.isNodeDofUsed(n, (Dof::dofType)t)) ids.push_back({false, n, (Dof::dofType)t});
  size_t nf = 0;
  for (auto& d : ids) if (nf + 1 < ids.size() && fixed.count({(int)inv[d.n - 1], (int)d.t})) { s.setConstrainedNodeDof(d.n, d.t); nf++; }
  s.assignEquationNumbers(); s.initSolutionData();
  for (auto& d : ids) (*s.getU())[eqOf(s, d) - 1] = u[(inv[d.n - 1] * 11 + d.t) % u.size()];
  s.assembleGlobalEqMatrices();
  std::map<std::pair<std::string, std::string>, double> res;
  MX K = dense(s.getK()), C, M; if (transient) { C = dense(s.getC()); M = dense(s.getM()); }
  VX F = vec(s.getF());
  auto name = [&](const DofId& d) { return std::to_string(inv[d.n - 1]) + Dof::dofType2label(d.t); };
  for (auto& a : ids) {
    uint32 ea = eqOf(s, a) - 1;
    res[{"F", name(a)}] = F(ea);
    for (auto& b : ids) { uint32 eb = eqOf(s, b) - 1;
      res[{"K" + name(a), name(b)}] = K(ea, eb);
      if (transient) { res[{"C" + name(a), name(b)}] = C(ea, eb); res[{"M" + name(a), name(b)}] = M(ea, eb); } }
  }
  return res;
}
static void shipped(mon::Rng& r) {
  int fam = (int)r.irange(0, 4);
  Phys p = randPhys(r, fam);
  uint32 nn = (uint32)p.pos.size(), ne = (uint32)p.els.size();
  std::vector<uint32> id(nn), ie(ne); for (uint32 i = 0; i < nn; i++) id[i] = i; for (uint32 i = 0; i < ne; i++) ie[i] = i;
  std::set<std::pair<int, int>> fx; for (uint32 i = 0; i < nn; i++) for (int t = 0; t < Dof::UNDEFINED; t++) if (r.chance(0.2)) fx.insert({(int)i, t});
  std::vector<double> u; for (int i = 0; i < 97; i++) u.push_back(r.range(-1e-3, 1e-3));
  bool tr = fam == 3;
  auto a = assemblePhys(p, id, ie, fx, tr, u);
  auto b = assemblePhys(p, r.perm(nn), r.perm(ne), std::set<std::pair<int, int>>(), tr, u);
  double sc[256]; std::fill_n(sc, 256, 0.0);
  for (auto& e : a) sc[(unsigned char)e.first.first[0]] = std::max(sc[(unsigned char)e.first.first[0]], std::fabs(e.second));
  check("renumber.keys", a.size() == b.size(), "different DoFs after renumbering");
  for (auto& e : a) {
    char k = e.first.first[0];
    mon::near(std::string("renumber.") + k, b[e.first], e.second, 1e-11 * sc[(unsigned char)k] + 1e-300, mon::Str() << "family " << fam << " " << e.first.first << "," << e.first.second);
    mon::ev("renumbered_entries_compared");
  }
  mon::sig(mon::Str() << "ship" << fam << "/" << nn << "/" << ne << "/" << fx.size());
}

// nodes, elements and DoFs in numbers that do not fit 16 bits
static void large(mon::Rng& r) {
  RandModel m; m.s = new FEStorage; m.nNodes = 70000; m.s->createNodes(m.nNodes); uint32 ne = 66500;
  for (uint32 i = 1; i <= ne; i++) {
    auto* e = new TestElem<ElementTRUSS3>; uint32 a = r.chance(0.1) ? (uint32)r.irange(1, m.nNodes) : i, b = r.chance(0.2) ? (uint32)r.irange(1, m.nNodes) : i + 1; if (a == b) b = a % m.nNodes + 1;
    e->setNodes({a, b}); e->nodeDofs.assign(2, {Dof::TEMP}); if (r.chance(0.01)) e->elDofs = {Dof::HYDRO_PRESSURE}; e->style = (int)r.irange(0, 3); e->plan(r, i); m.s->addElement(e); m.els.push_back(e); for (auto& d : e->ids) m.dofs.insert(d);
  }
  for (auto& d : m.dofs) if (r.chance(0.3)) m.fixed.insert(d);
  for (int k = 0; k < 5; k++) { Mpc* p = new Mpc; p->b = (double)r.irange(-9, 9); std::vector<RandModel::Term> ts; std::set<DofId> used; while (ts.size() < 3) { DofId d{false, (uint32)r.irange(k < 3 ? 65536 : 1, ne), Dof::TEMP}; if (m.dofs.count(d) && used.insert(d).second) ts.push_back({d, (double)r.irange(1, 9)}); } for (auto& t : ts) p->eq.push_back(MpcTerm(t.d.n, t.d.t, t.c)); m.s->addMpc(p); m.mpcPtr.push_back(p); m.mpcs.push_back({ts, p->b}); }
  m.s->initDofs(); announceFixed(m, r); m.s->assignEquationNumbers(); m.s->initSolutionData(); m.s->assembleGlobalEqMatrices();
  check("large.count", m.s->nDofs() == m.dofs.size() && m.s->nConstrainedDofs() == m.fixed.size(), "number of DoFs");
  size_t n = m.dofs.size() + m.mpcs.size(); uint32 nc = (uint32)m.fixed.size(); std::vector<double> F(n, 0.0); std::map<std::pair<uint32, uint32>, double> K;
  auto put = [&](uint32 a, uint32 b, double v) { K[{std::min(a, b), std::max(a, b)}] += v; };
  for (auto* e : m.els) { std::vector<uint32> eq; for (auto& d : e->ids) eq.push_back(eqOf(*m.s, d) - 1); for (size_t i = 0; i < eq.size(); i++) { F[eq[i]] += e->Fe(i); for (size_t j = i; j < eq.size(); j++) put(eq[i], eq[j], e->Ke(i, j)); } }
  for (size_t k = 0; k < m.mpcs.size(); k++) { uint32 q = m.mpcPtr[k]->eqNum - 1; F[q] = m.mpcs[k].second; for (auto& t : m.mpcs[k].first) put(q, eqOf(*m.s, t.d) - 1, t.c); }
  for (size_t i = 0; i < n; i++) if (!check("large.F", (*m.s->getF())[(uint32)i] == F[i], mon::Str() << "load " << i)) return;
  size_t found = 0, nonzero = 0; for (auto& p : K) nonzero += p.second != 0;
  auto* B = m.s->getK();
  auto walk = [&](math::BaseSparseMatrix* b, uint32 i0, uint32 j0) {
    uint32* io = b->getIofeirArray(); uint32* col = b->getColumnsArray(); double* v = b->getValuesArray();
    for (uint32 i = 0; i < b->nRows(); i++) for (uint32 k = io[i] - 1; k + 1 < io[i + 1]; k++) { auto it = K.find({i0 + i, j0 + col[k] - 1}); double e = it == K.end() ? 0.0 : it->second; if (e != 0) found++; if (!check("large.K", v[k] == e, mon::Str() << "entry " << i0 + i << "," << j0 + col[k] - 1 << " is " << v[k] << " instead of " << e)) return; }
  };
  walk(B->block(1), 0, 0); walk(B->block(1, 2), 0, nc); walk(B->block(2), nc, nc);
  check("large.complete", found == nonzero, mon::Str() << found << " of " << nonzero << " entries are stored");
  mon::ev("large_models"); mon::ev("entries_compared", K.size()); mon::sig("large");
}

mon::Harness mon::harness() {
  return {"C02", 2400, 60000, [](mon::Rng& r, uint64_t c) { if (c == 5) large(r); else if (c % 4 == 3) shipped(r); else synthetic(r); }, nullptr};
}
