// C15: compressing node numbers renames nodes consistently.
#include "meshfile.h"
using namespace mf;
using mon::check; using mon::Str;

static void run(Rng& r, uint64_t c) {
  bool vast = c % 2500 == 3; if (vast) mon::ev("vast_meshes");
  MeshData m; uint32 n = vast ? (uint32)r.irange(66000, 90000) : r.chance(0.03) ? 0 : (uint32)(r.chance(0.1) ? r.irange(200, 2000) : r.irange(1, 40));
  // numbers: identity, permutation of 1..n, ascending with gaps, arbitrary, shifted, one gap, reversed
  int mode = (int)r.irange(0, 6); std::vector<uint32> no(n);
  for (uint32 i = 0; i < n; i++) no[i] = i + 1;
  if (mode == 1) r.shuffle(no);
  if (mode == 2 || mode == 3) { uint32 cur = 0; for (uint32 i = 0; i < n; i++) no[i] = cur += (uint32)r.irange(1, r.chance(0.2) ? 100000 : 3); if (mode == 3) r.shuffle(no); }
  if (mode == 4) { uint32 s = (uint32)r.irange(1, 1000); for (auto& x : no) x += s; if (r.chance(0.5)) r.shuffle(no); }
  if (mode == 5 && n > 1) { uint32 k = (uint32)r.irange(0, n - 1); for (uint32 i = k; i < n; i++) no[i]++; if (r.chance(0.5)) std::swap(no[0], no[n - 1]); }
  if (mode == 6) std::reverse(no.begin(), no.end());
  std::map<uint32, uint32> pos; for (uint32 i = 0; i < n; i++) pos[no[i]] = i + 1;
  m.nodesNumbers = no; std::vector<std::array<double, 3>> P(n);
  for (uint32 i = 0; i < n; i++) { Vec<3> v; for (int k = 0; k < 3; k++) v[k] = P[i][k] = r.range(-9, 9); m.nodesPos.push_back(v); }
  std::vector<std::vector<uint32>> cells; std::vector<uint32> cn; std::vector<Bc> fx, ld; std::vector<Eq> eqs; std::vector<Comp> comps;
  if (n) {
    auto nd = [&] { return no[r.next() % n]; };
    for (int i = (int)r.irange(0, 60); i > 0; i--) { std::vector<uint32> e; for (int k = (int)r.irange(1, 20); k > 0; k--) e.push_back(nd()); cells.push_back(e); cn.push_back((uint32)r.irange(1, 99999)); m.cellIntData["MAT"].push_back(cn.back() % 7); }
    m.cellNodes = cells; m.cellNumbers = cn;
    for (int i = (int)r.irange(0, 12); i > 0; i--) { Bc b{nd(), dofTypes[r.irange(0, 7)], r.chance(0.15) ? 0 : r.range(-5, 5)}; fixBC x; x.node = b.node; x.node_dof = (Dof::dofType)b.dof; x.value = b.value; m.fixBcs.push_back(x); fx.push_back(b); }
    for (int i = (int)r.irange(0, 12); i > 0; i--) { Bc b{nd(), dofTypes[r.irange(0, 7)], r.chance(0.15) ? 0 : r.range(-5, 5)}; loadBC x; x.node = b.node; x.node_dof = (Dof::dofType)b.dof; x.value = b.value; m.loadBcs.push_back(x); ld.push_back(b); }
    for (int i = (int)r.irange(0, 6); i > 0; i--) { Eq q; q.b = r.chance(0.3) ? 0 : r.range(-2, 2); Mpc* p = new Mpc; p->b = q.b; for (int k = (int)r.irange(1, 7); k > 0; k--) { Term t{nd(), dofTypes[r.irange(0, 7)], r.chance(0.15) ? 0 : r.range(-2, 2)}; q.terms.push_back(t); p->eq.push_back(MpcTerm(t.node, (Dof::dofType)t.dof, t.coef)); } m.mpcs.push_back(p); eqs.push_back(q); }
    for (int i = (int)r.irange(0, 5); i > 0; i--) { Comp k; k.name = "c" + std::to_string(i); k.nodes = r.chance(0.6); for (int q = (int)r.irange(0, 40); q > 0; q--) k.list.push_back(k.nodes ? nd() : (uint32)r.irange(1, 9999)); FEComponent f; f.name = k.name; f.type = k.nodes ? FEComponent::NODES : FEComponent::ELEMENTS; f.list = k.list; m.feComps[k.name] = f; comps.push_back(k); }
  }
  mon::note(Str() << n << " nodes mode " << mode); mon::sig(Str() << n << "." << mode << "." << cells.size() << "." << fx.size() << "." << eqs.size() << "." << comps.size());
  for (int rep = 0; rep < 2; rep++) {
    m.compressNumbers();
    check("count", m.nodesNumbers.size() == n && m.nodesPos.size() == n && m.cellNodes.size() == cells.size() && m.cellNumbers == cn && m.fixBcs.size() == fx.size() && m.loadBcs.size() == ld.size() && m.mpcs.size() == eqs.size() && m.feComps.size() == comps.size(), "numbers of records changed");
    for (uint32 i = 0; i < n; i++) {
      if (!check("numbers", m.nodesNumbers[i] == i + 1, Str() << "node at place " << i + 1 << " is called " << m.nodesNumbers[i])) break;
      for (int k = 0; k < 3; k++) check("positions", m.nodesPos[i][k] == P[i][k], Str() << "position of node " << i + 1);
    }
    for (size_t i = 0; i < cells.size(); i++) { std::vector<uint32> e; for (auto x : cells[i]) e.push_back(pos[x]); check("elements", m.cellNodes[i] == e, Str() << "nodes of element " << i); }
    for (size_t i = 0; i < cn.size(); i++) check("attributes", m.cellIntData["MAT"][i] == cn[i] % 7, "attribute changed");
    for (size_t i = 0; i < fx.size(); i++) check("prescribed", (uint32)m.fixBcs[i].node == pos[fx[i].node] && (int)m.fixBcs[i].node_dof == fx[i].dof && m.fixBcs[i].value == fx[i].value, Str() << "prescribed value " << i << " is at node " << m.fixBcs[i].node << " instead of " << pos[fx[i].node]);
    for (size_t i = 0; i < ld.size(); i++) check("loads", (uint32)m.loadBcs[i].node == pos[ld[i].node] && (int)m.loadBcs[i].node_dof == ld[i].dof && m.loadBcs[i].value == ld[i].value, Str() << "load " << i << " is at node " << m.loadBcs[i].node << " instead of " << pos[ld[i].node]);
    for (size_t i = 0; i < eqs.size(); i++) {
      check("equations.rhs", m.mpcs[i]->b == eqs[i].b && m.mpcs[i]->eq.size() == eqs[i].terms.size(), Str() << "equation " << i); size_t j = 0;
      for (auto& t : m.mpcs[i]->eq) { auto& x = eqs[i].terms[j++]; check("equations", (uint32)t.node == pos[x.node] && (int)t.node_dof == x.dof && t.coef == x.coef, Str() << "equation " << i << " term " << j); }
    }
    for (auto& k : comps) { std::vector<uint32> e; for (auto x : k.list) e.push_back(k.nodes ? pos[x] : x); check(k.nodes ? "node_components" : "element_components", m.feComps[k.name].list == e, "component " + k.name); mon::ev(k.nodes ? "node_components" : "element_components"); }
    mon::ev("compressions"); mon::ev("elements", cells.size()); mon::ev("conditions", fx.size() + ld.size()); mon::ev("equations", eqs.size()); if (mode == 1 || mode == 6) mon::ev("permuted"); if (n == 0) mon::ev("empty");
  }
  freeMpcs(m);
}
mon::Harness mon::harness() { return {"C15", 30000, 500000, run, nullptr}; }
