// Helpers shared by the monitors that drive a finite element model through the public API.
#pragma once
#include "mon.h"
#include <memory>
#include <Eigen/Dense>
#include "FEStorage.h"
#include "FESolver.h"
#include "Mpc.h"
#include "elements/element.h"
#include "elements/TRUSS3.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/QUADTH.h"
#include "elements/TRIANGLE4.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"

namespace fe {
using namespace nla3d;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;

inline MX denseSym(math::SparseSymMatrix* m) {
  uint32 n = m->nRows();
  MX r = MX::Zero(n, n);
  for (uint32 i = 1; i <= n; i++) for (uint32 j = i; j <= n; j++) { double v = m->value(i, j); r(i - 1, j - 1) = v; r(j - 1, i - 1) = v; }
  return r;
}
inline MX denseRect(math::SparseMatrix* m) {
  MX r = MX::Zero(m->nRows(), m->nColumns());
  for (uint32 i = 1; i <= m->nRows(); i++) for (uint32 j = 1; j <= m->nColumns(); j++) r(i - 1, j - 1) = m->value(i, j);
  return r;
}
// the whole matrix a solver sees, from its three blocks
inline MX dense(math::BlockSparseSymMatrix<2>* m) {
  MX a = denseSym(m->block(1)), b = denseRect(m->block(1, 2)), d = denseSym(m->block(2));
  MX r(a.rows() + d.rows(), a.rows() + d.rows());
  r << a, b, b.transpose(), d;
  return r;
}
inline VX vec(math::dVec* v) { VX r(v->size()); for (uint32 i = 0; i < v->size(); i++) r(i) = (*v)[i]; return r; }
inline V3 v3(const math::Vec<3>& v) { return V3(v[0], v[1], v[2]); }

struct DofId {
  bool el; uint32 n; Dof::dofType t;
  bool operator<(const DofId& o) const { return el != o.el ? el < o.el : n != o.n ? n < o.n : t < o.t; }
  bool operator==(const DofId& o) const { return el == o.el && n == o.n && t == o.t; }
  std::string str() const { return std::string(el ? "E" : "N") + std::to_string(n) + ":" + Dof::dofType2label(t); }
};
inline uint32 eqOf(FEStorage& s, const DofId& d) { return d.el ? s.getElementDofEqNumber(d.n, d.t) : s.getNodeDofEqNumber(d.n, d.t); }

// Element whose contributions are chosen by the monitor.  Integer values keep every sum exact.
struct ITestElem {
  std::vector<DofId> ids;            // DoFs this element couples (filled in plan())
  MX Ke, Ce, Me; VX Fe;
  int style = 0;
  virtual ~ITestElem() {}
  virtual Element* asElement() = 0;
};

template <class Base>
class TestElem : public Base, public ITestElem {
 public:
  std::vector<std::vector<Dof::dofType>> nodeDofs; // per local node
  std::vector<Dof::dofType> elDofs;
  uint64_t updates = 0, builds = 0;
  Element* asElement() override { return this; }
  void setNodes(const std::vector<uint32>& n) { for (uint16 i = 0; i < this->getNNodes(); i++) this->getNodeNumber(i) = n[i]; }
  // decide contributions; elNumber is the number the storage will give it
  void plan(mon::Rng& r, uint32 elNumber, int density = 2) {
    ids.clear();
    for (auto t : elDofs) ids.push_back(DofId{true, elNumber, t});
    for (uint16 i = 0; i < this->getNNodes(); i++) for (auto t : nodeDofs[i]) ids.push_back(DofId{false, this->getNodeNumber(i), t});
    size_t n = ids.size();
    auto fill = [&](MX& m) { m = MX::Zero(n, n); for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) { double v = (double)r.irange(-1000, 1000); m(i, j) = v; m(j, i) = v; } };
    fill(Ke); fill(Ce); fill(Me);
    Fe = VX::Zero(n);
    for (size_t i = 0; i < n; i++) Fe(i) = (double)r.irange(-1000, 1000);
  }
  void pre() override {
    FEStorage& s = this->getStorage();
    for (uint16 i = 0; i < this->getNNodes(); i++) {
      auto& d = nodeDofs[i];
      if (d.size() == 8) s.addNodeDof(this->getNodeNumber(i), {d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]});
      else for (auto t : d) s.addNodeDof(this->getNodeNumber(i), {t});
    }
    for (auto t : elDofs) s.addElementDof(this->getElNum(), {t});
  }
  void buildK() override {
    builds++;
    FEStorage& s = this->getStorage();
    for (size_t i = 0; i < ids.size(); i++) {
      for (size_t j = i; j < ids.size(); j++) {
        // either orientation must mean the same symmetric entry
        size_t a = i, b = j;
        if (style & 1) std::swap(a, b);
        if ((style & 2) && !ids[a].el && !ids[b].el) s.addValueK(ids[a].n, ids[a].t, ids[b].n, ids[b].t, Ke(i, j));
        else s.addValueK(eqOf(s, ids[a]), eqOf(s, ids[b]), Ke(i, j));
      }
      if ((style & 2) && !ids[i].el) s.addValueF(ids[i].n, ids[i].t, Fe(i));
      else s.addValueF(eqOf(s, ids[i]), Fe(i));
    }
  }
  void buildC() override {
    FEStorage& s = this->getStorage();
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = i; j < ids.size(); j++) {
      size_t a = i, b = j; if (style & 1) std::swap(a, b);
      if ((style & 2) && !ids[a].el && !ids[b].el) s.addValueC(ids[a].n, ids[a].t, ids[b].n, ids[b].t, Ce(i, j));
      else s.addValueC(eqOf(s, ids[a]), eqOf(s, ids[b]), Ce(i, j));
    }
  }
  void buildM() override {
    FEStorage& s = this->getStorage();
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = i; j < ids.size(); j++) {
      size_t a = i, b = j; if (style & 1) std::swap(a, b);
      if ((style & 2) && !ids[a].el && !ids[b].el) s.addValueM(ids[a].n, ids[a].t, ids[b].n, ids[b].t, Me(i, j));
      else s.addValueM(eqOf(s, ids[a]), eqOf(s, ids[b]), Me(i, j));
    }
  }
  void update() override { updates++; }
};

// Same, but goes through the element assembly helpers of the library (node-blocked dense matrices).
template <class Base, uint16 NN, uint16 ND>
class HelperElem : public TestElem<Base> {
 public:
  std::vector<Dof::dofType> order; // ND types, in assembly order
  void planHelper(mon::Rng& r, uint32 elNumber, const std::vector<Dof::dofType>& ord) {
    order = ord;
    this->nodeDofs.assign(NN, ord);
    this->plan(r, elNumber);
  }
  template <class F> void withList(F f) {
    if (ND == 1) f({order[0]});
    else if (ND == 2) f({order[0], order[1]});
    else f({order[0], order[1], order[2]});
  }
  math::MatSym<NN * ND> sym(const MX& m) { math::MatSym<NN * ND> s; for (uint16 i = 0; i < NN * ND; i++) for (uint16 j = i; j < NN * ND; j++) s.comp(i, j) = m(i, j); return s; }
  void buildK() override {
    auto k = sym(this->Ke);
    FEStorage& s = this->getStorage();
    if (this->style % 3 == 0) {
      math::Vec<NN * ND> f; for (uint16 i = 0; i < NN * ND; i++) f[i] = this->Fe(i);
      withList([&](std::initializer_list<Dof::dofType> l) { this->assembleK(k, f, l); });
      return;
    }
    if (this->style % 3 == 1) withList([&](std::initializer_list<Dof::dofType> l) { this->assembleK(k, l); });
    else { MX m = this->Ke; withList([&](std::initializer_list<Dof::dofType> l) { this->assembleK(m, l); }); }
    for (size_t i = 0; i < this->ids.size(); i++) s.addValueF(this->ids[i].n, this->ids[i].t, this->Fe(i));
  }
  void buildC() override { auto k = sym(this->Ce); withList([&](std::initializer_list<Dof::dofType> l) { this->assembleC(k, l); }); }
  void buildM() override { auto k = sym(this->Me); withList([&](std::initializer_list<Dof::dofType> l) { this->assembleM(k, l); }); }
};

// A random model made of test elements, remembered independently of the library
struct RandModel {
  FEStorage* s = nullptr;
  std::vector<ITestElem*> els;
  std::set<DofId> dofs;            // what must be registered
  std::set<DofId> fixed;
  struct Term { DofId d; double c; };
  std::vector<std::pair<std::vector<Term>, double>> mpcs;
  std::vector<Mpc*> mpcPtr;
  std::set<size_t> inColl;         // equations held by an MpcCollection
  uint32 nNodes = 0;
  ~RandModel() { delete s; }
};

template <class Base>
ITestElem* addGeneric(RandModel& m, mon::Rng& r, const std::vector<uint32>& nodes, const std::vector<Dof::dofType>& pool, bool allowElDofs) {
  auto* e = new TestElem<Base>;
  e->setNodes(nodes);
  e->nodeDofs.resize(e->getNNodes());
  for (auto& nd : e->nodeDofs) {
    for (auto t : pool) if (r.chance(0.6)) nd.push_back(t);
    r.shuffle(nd);
    if (nd.size() > 3) nd.resize(3);
  }
  if (allowElDofs && r.chance(0.5)) { e->elDofs.push_back(r.pick(pool)); if (r.chance(0.3)) { auto t = r.pick(pool); if (t != e->elDofs[0]) e->elDofs.push_back(t); } }
  e->style = (int)r.irange(0, 3);
  e->plan(r, m.s->nElements() + 1);
  m.s->addElement(e);
  m.els.push_back(e);
  for (auto& d : e->ids) m.dofs.insert(d);
  return e;
}
template <class Base, uint16 NN, uint16 ND>
ITestElem* addHelper(RandModel& m, mon::Rng& r, const std::vector<uint32>& nodes, const std::vector<Dof::dofType>& ord) {
  auto* e = new HelperElem<Base, NN, ND>;
  e->setNodes(nodes);
  e->style = (int)r.irange(0, 2);
  e->planHelper(r, m.s->nElements() + 1, ord);
  m.s->addElement(e);
  m.els.push_back(e);
  for (auto& d : e->ids) m.dofs.insert(d);
  return e;
}

inline std::vector<uint32> distinctNodes(mon::Rng& r, uint32 k, uint32 nNodes, uint32 window) {
  std::set<uint32> s; std::vector<uint32> v;
  uint32 lo = (uint32)r.irange(1, nNodes > window ? nNodes - window + 1 : 1), hi = std::min(nNodes, lo + window - 1);
  while (v.size() < k) { uint32 n = (uint32)r.irange(lo, hi); if (s.insert(n).second) v.push_back(n); }
  return v;
}

inline std::unique_ptr<RandModel> randModel(mon::Rng& r, uint32 maxNodes, uint32 maxEls, bool withMpc = true, bool elDofs = true) {
  std::unique_ptr<RandModel> mp(new RandModel);
  RandModel& m = *mp;
  m.s = new FEStorage;
  m.nNodes = (uint32)r.irange(8, maxNodes);
  uint32 first = (uint32)r.irange(0, m.nNodes);
  m.s->createNodes(first);
  m.s->createNodes(m.nNodes - first);
  static const std::vector<Dof::dofType> all = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};
  std::vector<Dof::dofType> pool = all; r.shuffle(pool); pool.resize(r.irange(1, 5));
  uint32 ne = (uint32)r.irange(1, maxEls);
  for (uint32 i = 0; i < ne; i++) {
    uint32 win = 12;
    std::vector<Dof::dofType> o3 = all; r.shuffle(o3);
    switch (r.irange(0, 15)) {
      case 0: addGeneric<ElementVERTEX>(m, r, distinctNodes(r, 1, m.nNodes, win), pool, elDofs); break;
      case 1: addGeneric<ElementTWIN_VERTEX>(m, r, distinctNodes(r, 2, m.nNodes, win), pool, elDofs); break;
      case 2: case 3: addGeneric<ElementLINE>(m, r, distinctNodes(r, 2, m.nNodes, win), pool, elDofs); break;
      case 4: addGeneric<ElementTRIANGLE>(m, r, distinctNodes(r, 3, m.nNodes, win), pool, elDofs); break;
      case 5: addGeneric<ElementQUAD>(m, r, distinctNodes(r, 4, m.nNodes, win), pool, elDofs); break;
      case 6: addGeneric<ElementTETRA>(m, r, distinctNodes(r, 4, m.nNodes, win), pool, elDofs); break;
      case 7: addGeneric<ElementWEDGE>(m, r, distinctNodes(r, 6, m.nNodes, win), pool, elDofs); break;
      case 8: addGeneric<ElementHEXAHEDRON>(m, r, distinctNodes(r, 8, m.nNodes, win), pool, elDofs); break;
      case 9: o3.resize(1); addHelper<ElementLINE, 2, 1>(m, r, distinctNodes(r, 2, m.nNodes, win), o3); break;
      case 10: o3.resize(3); addHelper<ElementLINE, 2, 3>(m, r, distinctNodes(r, 2, m.nNodes, win), o3); break;
      case 11: o3.resize(2); addHelper<ElementTRIANGLE, 3, 2>(m, r, distinctNodes(r, 3, m.nNodes, win), o3); break;
      case 12: o3.resize(1); addHelper<ElementQUAD, 4, 1>(m, r, distinctNodes(r, 4, m.nNodes, win), o3); break;
      case 13: o3.resize(3); addHelper<ElementTETRA, 4, 3>(m, r, distinctNodes(r, 4, m.nNodes, win), o3); break;
      case 14: o3.resize(1); addHelper<ElementHEXAHEDRON, 8, 1>(m, r, distinctNodes(r, 8, m.nNodes, win), o3); break;
      default: o3.resize(2); addHelper<ElementLINE, 2, 2>(m, r, distinctNodes(r, 2, m.nNodes, win), o3); break;
    }
  }
  if (m.dofs.empty()) { std::vector<Dof::dofType> o1 = {Dof::TEMP}; addHelper<ElementLINE, 2, 1>(m, r, distinctNodes(r, 2, m.nNodes, 8), o1); }
  if (withMpc && r.chance(0.6)) {
    std::vector<DofId> nd;
    for (auto& d : m.dofs) if (!d.el) nd.push_back(d);
    uint32 k = (uint32)r.irange(0, 4);
    for (uint32 i = 0; i < k && nd.size() >= 2; i++) {
      std::vector<RandModel::Term> terms; std::set<DofId> used;
      uint32 nt = (uint32)r.irange(1, std::min<long>(5, nd.size()));
      for (uint32 t = 0; t < nt; t++) { auto& d = r.pick(nd); if (used.insert(d).second || r.chance(0.5)) terms.push_back({d, (double)r.irange(-9, 9)}); } // a DoF may occur twice in an equation
      double b = (double)r.irange(-50, 50);
      Mpc* p = new Mpc; p->b = b;
      for (auto& t : terms) p->eq.push_back(MpcTerm(t.d.n, t.d.t, t.c));
      m.s->addMpc(p);
      m.mpcPtr.push_back(p);
      m.mpcs.push_back(std::make_pair(terms, b));
    }
  }
  return mp;
}
// groups of equations whose coefficients are only known at assembly (as rigid bodies do it)
struct TestColl : MpcCollection {
  RandModel* m = nullptr; std::vector<size_t> which; uint32 updates = 0;
  void pre() override {
    for (auto* p : collection) storage->deleteMpc(p);
    collection.clear();
    for (auto k : which) { Mpc* p = new Mpc; p->b = 0; for (auto& t : m->mpcs[k].first) p->eq.push_back(MpcTerm(t.d.n, t.d.t, 0.0)); collection.push_back(p); m->mpcPtr[k] = p; }
  }
  void update() override {
    updates++;
    for (size_t i = 0; i < which.size(); i++) { auto& w = m->mpcs[which[i]]; collection[i]->b = w.second; auto it = collection[i]->eq.begin(); for (auto& t : w.first) { it->coef = t.c; it++; } }
  }
};
inline void addCollections(RandModel& m, mon::Rng& r) {
  std::vector<DofId> nd; for (auto& d : m.dofs) if (!d.el) nd.push_back(d);
  if (nd.size() < 2) return;
  int nc = (int)r.irange(1, 3);
  for (int c = 0; c < nc; c++) {
    auto* col = new TestColl; col->storage = m.s; col->m = &m;
    int k = (int)r.irange(0, 3);
    for (int i = 0; i < k; i++) {
      std::vector<RandModel::Term> terms; std::set<DofId> used; int nt = (int)r.irange(1, 4);
      for (int t = 0; t < nt; t++) { auto& d = r.pick(nd); if (used.insert(d).second) terms.push_back({d, (double)r.irange(-9, 9)}); }
      col->which.push_back(m.mpcs.size()); m.mpcs.push_back(std::make_pair(terms, (double)r.irange(-50, 50))); m.mpcPtr.push_back(nullptr); m.inColl.insert(col->which.back());
    }
    m.s->addMpcCollection(col);
  }
}
// fewer coupled DoFs per row than the documented capacity of a matrix row?
inline bool rowsFit(RandModel& m, uint32 cap = 95) {
  std::map<DofId, std::set<DofId>> nb;
  for (auto* e : m.els) {
    Element* el = e->asElement();
    std::set<DofId> mine;
    for (auto& d : m.dofs) {
      if (d.el ? d.n == el->getElNum() : false) mine.insert(d);
      if (!d.el) for (uint16 i = 0; i < el->getNNodes(); i++) if (el->getNodeNumber(i) == d.n) mine.insert(d);
    }
    for (auto& a : mine) nb[a].insert(mine.begin(), mine.end());
  }
  for (auto& p : nb) if (p.second.size() + m.mpcs.size() > cap) return false;
  return true;
}
// choose constrained DoFs (never all of them) and tell the storage; some are announced twice
inline void chooseFixed(RandModel& m, mon::Rng& r, double p) {
  m.fixed.clear();
  for (auto& d : m.dofs) if (r.chance(p)) m.fixed.insert(d);
  if (m.fixed.size() == m.dofs.size()) m.fixed.erase(m.fixed.begin());
}
inline void announceFixed(RandModel& m, mon::Rng& r) {
  std::vector<DofId> f(m.fixed.begin(), m.fixed.end());
  size_t n = f.size();
  for (size_t i = 0; i < n; i++) if (r.chance(0.2)) f.push_back(f[i]);
  r.shuffle(f);
  for (auto& d : f) { if (d.el) m.s->setConstrainedElementDof(d.n, d.t); else m.s->setConstrainedNodeDof(d.n, d.t); }
}
} // namespace fe
