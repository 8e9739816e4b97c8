// C01: equation numbering is a bijection that separates prescribed, unknown and constraint rows.
#include "fe.h"
using namespace fe;
using mon::check;

static const std::vector<Dof::dofType> allT = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};

static void verifyNumbering(RandModel& m, const char* phase) {
  FEStorage& s = *m.s;
  uint32 nd = (uint32)m.dofs.size(), nc = (uint32)m.fixed.size(), nm = (uint32)m.mpcs.size();
  check("count.dofs", s.nDofs() == nd, mon::Str() << phase << " nDofs " << s.nDofs() << " expected " << nd);
  check("count.constrained", s.nConstrainedDofs() == nc, mon::Str() << phase << " nConstrained " << s.nConstrainedDofs() << " expected " << nc);
  check("count.unknown", s.nUnknownDofs() == nd - nc, mon::Str() << phase << " nUnknown " << s.nUnknownDofs() << " expected " << nd - nc);
  check("count.mpc", s.nMpc() == nm, mon::Str() << phase << " nMpc " << s.nMpc() << " expected " << nm);
  std::map<uint32, std::string> used;
  std::set<Dof::dofType> nt, et;
  for (int el = 0; el < 2; el++) {
    uint32 n = el ? s.nElements() : s.nNodes();
    for (uint32 i = 1; i <= n; i++) for (auto t : allT) {
      DofId d{el == 1, i, t};
      bool exp = m.dofs.count(d) > 0;
      bool got = el ? s.isElementDofUsed(i, t) : s.isNodeDofUsed(i, t);
      check("registered", exp == got, mon::Str() << phase << " " << d.str() << " registered=" << got << " expected " << exp);
      Dof* p = nullptr;
      if (nd && (el ? s.getUniqueElementDofTypes().size() : s.getUniqueNodeDofTypes().size())) p = el ? s.getElementDof(i, t) : s.getNodeDof(i, t);
      check("lookup", (p != nullptr) == exp, mon::Str() << phase << " " << d.str() << " lookup " << (p != nullptr) << " expected " << exp);
      if (!p || !exp) continue;
      (el ? et : nt).insert(t);
      check("lookup.type", p->type == t, mon::Str() << d.str() << " has type " << p->type);
      bool fx = m.fixed.count(d) > 0;
      check("constrainedflag", p->isConstrained == fx, mon::Str() << phase << " " << d.str() << " constrained=" << p->isConstrained << " expected " << fx);
      uint32 eq = eqOf(s, d);
      check("lookup.eq", eq == p->eqNumber, "equation lookups disagree");
      uint32 lo = fx ? 1 : nc + 1, hi = fx ? nc : nd;
      check("partition", eq >= lo && eq <= hi, mon::Str() << phase << " " << d.str() << " equation " << eq << " outside [" << lo << "," << hi << "]");
      auto ins = used.insert(std::make_pair(eq, d.str()));
      check("unique", ins.second, mon::Str() << phase << " equation " << eq << " given to " << d.str() << " and " << ins.first->second);
      mon::ev("dof_numbers_checked");
    }
  }
  check("types.node", s.getUniqueNodeDofTypes() == nt, mon::Str() << phase << " node DoF type set wrong");
  check("types.element", s.getUniqueElementDofTypes() == et, mon::Str() << phase << " element DoF type set wrong");
  for (size_t i = 0; i < m.mpcPtr.size(); i++) {
    uint32 eq = m.mpcPtr[i]->eqNum;
    check("mpc.partition", eq > nd && eq <= nd + nm, mon::Str() << phase << " constraint " << i << " equation " << eq << " outside (" << nd << "," << nd + nm << "]");
    check("mpc.unique", used.insert(std::make_pair(eq, "mpc")).second, mon::Str() << phase << " constraint equation " << eq << " used twice");
    mon::ev("constraint_numbers_checked");
  }
  check("gapless", used.size() == nd + nm && (used.empty() || (used.begin()->first == 1 && used.rbegin()->first == nd + nm)),
        mon::Str() << phase << " equation numbers are not 1.." << nd + nm);
  // the textual listing must tell the same story
  std::ostringstream oss; s.printDofInfo(oss);
  std::istringstream in(oss.str()); std::string line; size_t lines = 0;
  while (std::getline(in, line)) if (!line.empty()) {
    lines++;
    bool ok = false;
    char kind; unsigned n, eq, c; char lab[64];
    if (sscanf(line.c_str(), "%c%u:%63[^ ] eq = %u constrained = %u", &kind, &n, lab, &eq, &c) == 5) {
      DofId d{kind == 'E', n, Dof::label2dofType(lab)};
      ok = d.t != Dof::UNDEFINED && m.dofs.count(d) && eqOf(s, d) == eq && (m.fixed.count(d) > 0) == (c == 1);
    }
    check("listing", ok, mon::Str() << phase << " listing line wrong: " << line);
  }
  check("listing.count", lines == nd, "DoF listing incomplete");
}

static void fePart(mon::Rng& r) {
  auto mp = randModel(r, 60, 30);
  RandModel& m = *mp;
  if (r.chance(0.3)) addCollections(m, r);
  mon::note(mon::Str() << "nodes " << m.nNodes << " els " << m.els.size() << " dofs " << m.dofs.size() << " mpcs " << m.mpcs.size());
  bool fits = rowsFit(m);
  int rounds = (int)r.irange(1, 3);
  for (int k = 0; k < rounds; k++) {
    chooseFixed(m, r, r.pick(std::vector<double>{0.0, 0.1, 0.5, 0.9}));
    m.s->initDofs();
    // DoFs may also be registered by other parties, before numbering, in any order, repeatedly
    if (r.chance(0.5)) for (int q = 0; q < 6; q++) {
      auto it = m.dofs.begin(); std::advance(it, r.irange(0, (long)m.dofs.size() - 1));
      if (it->el) m.s->addElementDof(it->n, {it->t, it->t}); else m.s->addNodeDof(it->n, {it->t});
    }
    announceFixed(m, r);
    m.s->assignEquationNumbers();
    verifyNumbering(m, k == 0 ? "first" : "again");
    if (fits && r.chance(0.5)) {
      m.s->setTransient(r.chance(0.5));
      m.s->initSolutionData();
      check("size.U", m.s->getU()->size() == m.dofs.size() + m.mpcs.size(), "solution vector size");
      check("size.F", m.s->getF()->size() == m.dofs.size() + m.mpcs.size(), "load vector size");
      check("size.R", m.s->getR()->size() == m.dofs.size() + m.mpcs.size(), "reaction vector size");
      check("size.K", m.s->getK()->block(1)->nRows() == m.fixed.size() && m.s->getK()->block(2)->nRows() == m.dofs.size() - m.fixed.size() + m.mpcs.size(), "matrix block sizes");
      for (auto& d : m.dofs) (*m.s->getU())[eqOf(*m.s, d) - 1] = 1000.0 + eqOf(*m.s, d);
      for (auto& d : m.dofs) check("solution.lookup", (d.el ? m.s->getElementDofSolution(d.n, d.t) : m.s->getNodeDofSolution(d.n, d.t)) == 1000.0 + eqOf(*m.s, d), d.str());
      verifyNumbering(m, "after allocation");
    }
    if (r.chance(0.5)) m.s->deleteSolutionData(); else mon::ev("renumbered_with_data");
    mon::ev("models_numbered");
  }
  mon::sig(mon::Str() << m.nNodes << "/" << m.els.size() << "/" << m.dofs.size() << "/" << m.fixed.size() << "/" << m.mpcs.size());
  mon::sample(mon::Str() << "model with " << m.nNodes << " nodes, " << m.els.size() << " elements, " << m.dofs.size() << " DoFs, " << m.fixed.size() << " prescribed, " << m.mpcs.size() << " constraints, " << rounds << " numbering rounds");
}

// registration table on its own: random histories against a set model
static void tablePart(mon::Rng& r, bool big) {
  DofCollection c;
  int rounds = (int)r.irange(1, 3);
  for (int k = 0; k < rounds; k++) {
    uint32 n = big ? (uint32)r.irange(66000, 80000) : (uint32)r.irange(1, 200);
    c.initDofTable(n);
    std::map<uint32, std::vector<Dof::dofType>> model; // registration order per entity
    size_t total = 0;
    std::set<Dof::dofType> types;
    int ops = (int)r.irange(0, big ? 300 : 400);
    std::vector<uint32> touched;
    for (int i = 0; i < ops; i++) {
      uint32 e = r.chance(0.1) ? n : r.chance(0.1) ? 1 : touched.size() && r.chance(0.3) ? r.pick(touched) : (uint32)r.irange(1, n);
      touched.push_back(e);
      std::vector<Dof::dofType> l;
      int q = (int)r.irange(1, 4);
      for (int z = 0; z < q; z++) l.push_back(r.pick(allT));
      switch (q) {
        case 1: c.addDof(e, {l[0]}); break;
        case 2: c.addDof(e, {l[0], l[1]}); break;
        case 3: c.addDof(e, {l[0], l[1], l[2]}); break;
        default: c.addDof(e, {l[0], l[1], l[2], l[3]});
      }
      auto& mv = model[e];
      for (auto t : l) { types.insert(t); if (std::find(mv.begin(), mv.end(), t) == mv.end()) { mv.push_back(t); total++; } }
      mon::ev("registrations");
    }
    check("table.count", c.getNumberOfUsedDofs() == total, mon::Str() << "table holds " << c.getNumberOfUsedDofs() << " expected " << total);
    check("table.entities", c.getNumberOfEntities() == n, "entity count");
    check("table.types", c.getUniqueDofTypes() == types, "type set");
    // tag every DoF, then make sure tags are found again through every access path
    uint32 tag = 1;
    std::map<std::pair<uint32, int>, uint32> tags;
    for (auto& p : model) for (auto t : p.second) { Dof* d = c.getDof(p.first, t); if (!check("table.lookup", d != nullptr, mon::Str() << "entity " << p.first)) continue; d->eqNumber = tag; tags[std::make_pair(p.first, (int)t)] = tag++; }
    auto verifyEntity = [&](uint32 e) {
      auto it = model.find(e);
      size_t exp = it == model.end() ? 0 : it->second.size(), got = 0;
      auto rg = c.getEntityDofs(e);
      for (auto d = rg.first; d != rg.second; d++) { got++; auto f = tags.find(std::make_pair(e, (int)d->type)); check("table.range", f != tags.end() && f->second == d->eqNumber, mon::Str() << "entity " << e << " range holds a foreign DoF"); }
      check("table.rangesize", exp == got, mon::Str() << "entity " << e << " has " << got << " DoFs, expected " << exp);
      for (auto t : allT) { bool u = it != model.end() && std::find(it->second.begin(), it->second.end(), t) != it->second.end();
        check("table.used", c.isDofUsed(e, t) == u, mon::Str() << "entity " << e << " type " << t);
        check("table.get", (c.getDof(e, t) != nullptr) == u, mon::Str() << "entity " << e << " type " << t); }
    };
    if (n <= 200) for (uint32 e = 1; e <= n; e++) verifyEntity(e);
    else { for (auto& p : model) verifyEntity(p.first); for (int i = 0; i < 200; i++) verifyEntity((uint32)r.irange(1, n)); }
    mon::sig(mon::Str() << "table" << n << "/" << total);
  }
  mon::ev("tables_checked");
}

// more DoFs / nodes than fit in 16 bits
static void bigModel(mon::Rng& r, bool manyDofs) {
  RandModel m; m.s = new FEStorage;
  m.nNodes = manyDofs ? 8400 : 70000;
  m.s->createNodes(m.nNodes);
  auto* e = new TestElem<ElementHEXAHEDRON>;
  std::vector<uint32> nn = {1, 2, m.nNodes, m.nNodes - 1, 5, 6, 7, 8};
  e->setNodes(nn); e->nodeDofs.resize(8); for (auto& v : e->nodeDofs) v = {Dof::UX};
  e->plan(r, 1); m.s->addElement(e); m.els.push_back(e);
  for (auto& d : e->ids) m.dofs.insert(d);
  m.s->initDofs();
  if (manyDofs) {
    for (uint32 i = 1; i <= m.nNodes; i++) { m.s->addNodeDof(i, {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP}); for (auto t : allT) m.dofs.insert(DofId{false, i, t}); }
  } else for (int k = 0; k < 200; k++) { DofId d{false, (uint32)r.irange(1, m.nNodes), r.pick(allT)}; m.s->addNodeDof(d.n, {d.t}); m.dofs.insert(d); }
  // registration after initDofs() is not counted by the storage, so compare the numbering through the table only
  std::set<uint32> seen;
  if (!manyDofs) {
    // nodes above 65535 only: full path through an element
    if (r.chance(0.5)) m.s->deleteSolutionData(); else mon::ev("renumbered_with_data");
    m.dofs.clear(); for (auto& d : e->ids) m.dofs.insert(d);
    chooseFixed(m, r, 0.4);
    m.s->initDofs(); announceFixed(m, r); m.s->assignEquationNumbers();
    for (auto& d : m.dofs) { uint32 q = eqOf(*m.s, d); check("big.unique", q >= 1 && q <= m.dofs.size() && seen.insert(q).second && ((m.fixed.count(d) > 0) == (q <= m.fixed.size())), d.str()); }
  } else {
    for (uint32 i = 1; i <= m.nNodes; i += 37) for (auto t : allT) check("big.used", m.s->isNodeDofUsed(i, t) && m.s->getNodeDof(i, t)->type == t, "big table");
  }
  mon::ev("big_models");
  mon::sig(mon::Str() << "big" << m.nNodes << manyDofs);
}

// a model whose elements register more than 65535 DoFs
static void bigNumbering(mon::Rng& r) {
  RandModel m; m.s = new FEStorage;
  m.nNodes = 8400; m.s->createNodes(m.nNodes);
  for (uint32 i = 8; i <= m.nNodes; i += 8) {
    auto* e = new TestElem<ElementHEXAHEDRON>;
    std::vector<uint32> nn; for (uint32 k = 0; k < 8; k++) nn.push_back(i - k);
    e->setNodes(nn); e->nodeDofs.assign(8, allT); e->ids.clear();
    m.s->addElement(e);
    for (auto n : nn) for (auto t : allT) m.dofs.insert(DofId{false, n, t});
  }
  for (auto& d : m.dofs) if (r.chance(0.3)) m.fixed.insert(d);
  m.s->initDofs(); announceFixed(m, r); m.s->assignEquationNumbers();
  verifyNumbering(m, "big");
  mon::ev("big_models");
  mon::sig("bignumbering");
}

mon::Harness mon::harness() {
  return {"C01", 2400, 60000, [](mon::Rng& r, uint64_t c) {
    if (c == 3) return bigNumbering(r);
    if (c == 4) return bigModel(r, false);
    if (c == 5) return bigModel(r, true);
    if (c % 40 == 6) return tablePart(r, true);
    if (c % 3 == 0) return tablePart(r, false);
    fePart(r);
  }, nullptr};
}
