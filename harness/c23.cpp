// C23: nodes, elements and components keep their numbers, kinds, names and data while a model is built, whatever the order of the operations.
#include "fe.h"
#include "spy.h"
#include "elements/ElementFactory.h"
#include "FEComponent.h"
using namespace fe;
using mon::check; using mon::Str; using mon::Rng;

struct Kind { ElementType t; const char* name; ElementShape shape; uint16 nn, dim; };
static const Kind kinds[] = {
  {ElementType::TRUSS3, "TRUSS3", ElementShape::LINE, 2, 1}, {ElementType::PLANE41, "PLANE41", ElementShape::QUAD, 4, 2}, {ElementType::SOLID81, "SOLID81", ElementShape::HEXAHEDRON, 8, 3},
  {ElementType::TETRA0, "TETRA0", ElementShape::TETRA, 4, 3}, {ElementType::TETRA1, "TETRA1", ElementShape::TETRA, 4, 3}, {ElementType::QUADTH, "QUADTH", ElementShape::QUAD, 4, 2},
  {ElementType::SurfaceLINETH, "SurfaceLINETH", ElementShape::LINE, 2, 1}, {ElementType::TRIANGLE4, "TRIANGLE4", ElementShape::TRIANGLE, 3, 2}, {ElementType::INTER0, "INTER0", ElementShape::TWIN_VERTEX, 2, 0},
  {ElementType::INTER3, "INTER3", ElementShape::WEDGE, 6, 3}};
static const int NK = sizeof(kinds) / sizeof(kinds[0]);
static const Kind* kindOf(ElementType t) { for (auto& k : kinds) if (k.t == t) return &k; return nullptr; }

struct ModelEl { ElementType t; std::vector<uint32> nodes; Element* p; };
struct Mirror { std::vector<std::array<double, 3>> pos; std::vector<Node*> np; std::vector<ModelEl> els; std::vector<std::pair<std::string, std::pair<int, std::vector<uint32>>>> comps; size_t mpcs = 0; };

static void verify(FEStorage& s, Mirror& m, Rng& r, const std::string& w) {
  check("count.nodes", s.nNodes() == m.pos.size(), Str() << w << " " << s.nNodes() << " nodes, built " << m.pos.size());
  check("count.elements", s.nElements() == m.els.size(), Str() << w << " " << s.nElements() << " elements, built " << m.els.size());
  check("count.equations", s.nMpc() == m.mpcs, Str() << w << " " << s.nMpc() << " equations, added " << m.mpcs);
  if (s.nNodes() != m.pos.size() || s.nElements() != m.els.size()) return;
  for (uint32 n = 1; n <= m.pos.size(); n++) {
    check("node.identity", &s.getNode(n) == m.np[n - 1], Str() << w << " node " << n << " is another node");
    double q[3]; s.getNodePosition(n, q, false);
    for (int k = 0; k < 3; k++) check("node.position", s.getNode(n).pos[k] == m.pos[n - 1][k] && q[k] == m.pos[n - 1][k], Str() << w << " position of node " << n);
    mon::ev("nodes_checked");
  }
  for (uint32 e = 1; e <= m.els.size(); e++) {
    Element& x = s.getElement(e); ModelEl& y = m.els[e - 1]; const Kind* k = kindOf(y.t);
    check("element.identity", &x == y.p, Str() << w << " element " << e << " is another element");
    check("element.number", x.getElNum() == e, Str() << w << " element " << e << " calls itself " << x.getElNum());
    check("element.storage", &x.getStorage() == &s, Str() << w << " element " << e << " belongs to another model");
    check("element.type", x.getType() == y.t, Str() << w << " type of element " << e);
    check("element.shape", x.getShape() == k->shape && x.getNNodes() == k->nn && x.getDim() == k->dim, Str() << w << " shape of element " << e << " of type " << k->name);
    bool valid = true;
    for (size_t i = 0; i < y.nodes.size(); i++) { check("element.nodes", x.getNodeNumber((uint16)i) == y.nodes[i], Str() << w << " node " << i << " of element " << e); valid &= y.nodes[i] >= 1 && y.nodes[i] <= m.pos.size(); }
    if (valid) { Node* np[10]; s.getElementNodes(e, np); for (size_t i = 0; i < y.nodes.size(); i++) check("element.node.pointers", np[i] == m.np[y.nodes[i] - 1], Str() << w << " node " << i << " of element " << e); }
    std::ostringstream o; x.print(o); std::istringstream in(o.str()); std::string E; uint32 no; char col; in >> E >> no >> col; bool ok = (bool)in && E == "E" && no == e && col == ':'; for (auto n : y.nodes) { uint32 v; ok = ok && (in >> v) && v == n; } std::string rest; ok = ok && !(in >> rest);
    check("element.print", ok, Str() << w << " listing of element " << e << ": " << o.str());
    mon::ev("elements_checked");
  }
  for (size_t i = 0; i < m.comps.size(); i++) {
    FEComponent* c = s.getFEComponent(i); check("component.index", c && c->name == m.comps[i].first && (int)c->type == m.comps[i].second.first && c->list == m.comps[i].second.second, Str() << w << " component " << i);
    size_t first = 0; while (m.comps[first].first != m.comps[i].first) first++;
    check("component.name", s.getFEComponent(m.comps[i].first) == s.getFEComponent(first), Str() << w << " component called " << m.comps[i].first); mon::ev("components_found");
  }
  static const char* absent[] = {"", "side", "COMP", "c", "nothing", "SIDE_1x"};
  std::string a = absent[r.irange(0, 5)]; bool there = false; for (auto& c : m.comps) there |= c.first == a;
  if (!there) { check("component.absent", s.getFEComponent(a) == nullptr, w + " found a component that was not added: " + a); mon::ev("components_absent"); }
}
template <class T> std::vector<uint32> create(FEStorage& s, Rng& r, uint32 n) {
  if (r.chance(0.5)) { T example; for (uint16 i = 0; i < example.getNNodes(); i++) example.getNodeNumber(i) = i + 1; mon::ev("examples"); return s.createElements(n, example); }
  return s.createElements(n, T());
}
static std::vector<uint32> createByExample(FEStorage& s, Rng& r, ElementType t, uint32 n) {
  switch (t) {
    case ElementType::TRUSS3: return create<ElementTRUSS3>(s, r, n); case ElementType::PLANE41: return create<ElementPLANE41>(s, r, n); case ElementType::SOLID81: return create<ElementSOLID81>(s, r, n);
    case ElementType::TETRA0: return create<ElementTETRA0>(s, r, n); case ElementType::TETRA1: return create<ElementTETRA1>(s, r, n); case ElementType::QUADTH: return create<ElementQUADTH>(s, r, n);
    case ElementType::SurfaceLINETH: return create<SurfaceLINETH>(s, r, n); case ElementType::TRIANGLE4: return create<ElementTRIANGLE4>(s, r, n); case ElementType::INTER0: return create<ElementINTER0>(s, r, n);
    default: return create<ElementINTER3>(s, r, n);
  }
}
static Element* single(ElementType t) {
  switch (t) {
    case ElementType::TRUSS3: return new ElementTRUSS3; case ElementType::PLANE41: return new ElementPLANE41; case ElementType::SOLID81: return new ElementSOLID81; case ElementType::TETRA0: return new ElementTETRA0;
    case ElementType::TETRA1: return new ElementTETRA1; case ElementType::QUADTH: return new ElementQUADTH; case ElementType::SurfaceLINETH: return new SurfaceLINETH; case ElementType::TRIANGLE4: return new ElementTRIANGLE4;
    case ElementType::INTER0: return new ElementINTER0; default: return new ElementINTER3;
  }
}
template <class T> Element* cloneAs(Element& e) { return new T(dynamic_cast<T&>(e)); }
static Element* clone(Element& e) {
  switch (e.getType()) {
    case ElementType::TRUSS3: return cloneAs<ElementTRUSS3>(e); case ElementType::PLANE41: return cloneAs<ElementPLANE41>(e); case ElementType::SOLID81: return cloneAs<ElementSOLID81>(e); case ElementType::TETRA0: return cloneAs<ElementTETRA0>(e);
    case ElementType::TETRA1: return cloneAs<ElementTETRA1>(e); case ElementType::QUADTH: return cloneAs<ElementQUADTH>(e); case ElementType::SurfaceLINETH: return cloneAs<SurfaceLINETH>(e); case ElementType::TRIANGLE4: return cloneAs<ElementTRIANGLE4>(e);
    case ElementType::INTER0: return cloneAs<ElementINTER0>(e); default: return cloneAs<ElementINTER3>(e);
  }
}
template <class T> void copies(Rng& r) { // copies of an element have node lists of their own
  T a, b; std::vector<uint32> n; for (uint16 i = 0; i < a.getNNodes(); i++) { n.push_back((uint32)r.next()); a.getNodeNumber(i) = n[i]; b.getNodeNumber(i) = 7; }
  a.setIntegrationOrder(2); T c(a); b = a; bool self = r.chance(0.3); if (self) b = *&b;
  bool ok = true; for (uint16 i = 0; i < a.getNNodes(); i++) ok = ok && b.getNodeNumber(i) == n[i] && c.getNodeNumber(i) == n[i];
  check("copy.nodes", ok && c.getType() == a.getType() && c.getShape() == a.getShape() && c.getIntegrationOrder() == a.getIntegrationOrder(), Str() << "a copy of an element differs from it: type " << (int)a.getType() << " " << (int)c.getType() << " " << ok << " order " << a.getIntegrationOrder() << " " << c.getIntegrationOrder());
  for (uint16 i = 0; i < a.getNNodes(); i++) { b.getNodeNumber(i) = 1; c.getNodeNumber(i) = 2; }
  for (uint16 i = 0; i < a.getNNodes(); i++) ok = ok && a.getNodeNumber(i) == n[i] && b.getNodeNumber(i) == 1;
  check("copy.independent", ok, "changing a copy of an element changes the original"); mon::ev("element_copies");
}

static void history(Rng& r) {
  FEStorage s; Mirror m; int ops = (int)r.irange(1, 25); std::string w;
  auto addEls = [&](const std::vector<uint32>& ids, size_t before, ElementType t, uint32 n) {
    std::vector<uint32> exp; for (uint32 i = 0; i < n; i++) exp.push_back((uint32)before + 1 + i);
    check("numbers.elements", ids == exp, Str() << w << " numbers of the new elements");
    for (uint32 i = 0; i < n; i++) {
      ModelEl x; x.t = t; if (s.nElements() < before + i + 1) return; x.p = &s.getElement((uint32)before + 1 + i); const Kind* k = kindOf(t);
      for (uint16 q = 0; q < k->nn; q++) { uint32 v = m.pos.empty() ? (uint32)r.irange(1, 99999) : (uint32)r.irange(1, (long)m.pos.size()); x.p->getNodeNumber(q) = v; x.nodes.push_back(v); }
      m.els.push_back(x);
    }
  };
  for (int o = 0; o < ops; o++) {
    int op = (int)r.irange(0, 15);
    if (op <= 3) {
      uint32 n = (uint32)(r.chance(0.1) ? 0 : r.irange(1, 15)); w += Str() << "n" << n; auto ids = s.createNodes(n);
      std::vector<uint32> exp; for (uint32 i = 0; i < n; i++) exp.push_back((uint32)m.pos.size() + 1 + i);
      check("numbers.nodes", ids == exp, w + " numbers of the new nodes");
      for (auto i : ids) { if (i < 1 || i > s.nNodes()) return; Node& nd = s.getNode(i); check("node.origin", nd.pos[0] == 0 && nd.pos[1] == 0 && nd.pos[2] == 0, w + " a new node is not at the origin"); std::array<double, 3> p; for (int k = 0; k < 3; k++) nd.pos[k] = p[k] = r.range(-9, 9); m.pos.push_back(p); m.np.push_back(&nd); }
    } else if (op == 4) { Node* nd = new Node; std::array<double, 3> p; for (int k = 0; k < 3; k++) nd->pos[k] = p[k] = r.range(-9, 9); s.addNode(nd); m.pos.push_back(p); m.np.push_back(nd); w += "N"; }
    else if (op <= 7) { ElementType t = kinds[r.irange(0, NK - 1)].t; uint32 n = (uint32)(r.chance(0.1) ? 0 : r.irange(1, 9)); w += Str() << "e" << n; size_t b = m.els.size(); addEls(s.createElements(n, t), b, t, n); mon::ev("created_by_type"); }
    else if (op <= 9) { ElementType t = kinds[r.irange(0, NK - 1)].t; uint32 n = (uint32)r.irange(0, 6); w += Str() << "x" << n; size_t b = m.els.size(); addEls(createByExample(s, r, t, n), b, t, n); mon::ev("created_by_example"); }
    else if (op == 10) { ElementType t = kinds[r.irange(0, NK - 1)].t; Element* p;
      if (!m.els.empty() && r.chance(0.5)) { Element& from = s.getElement((uint32)r.irange(1, (long)m.els.size())); t = from.getType(); p = clone(from); mon::ev("added_copies"); } else p = single(t); size_t b = m.els.size(); s.addElement(p); w += "a"; addEls({(uint32)b + 1}, b, t, 1); check("added.identity", s.nElements() == b + 1 && &s.getElement((uint32)b + 1) == p, w + " added element"); mon::ev("added"); }
    else if (op <= 12) {
      static const char* nm[] = {"SIDE", "SIDE_1", "SIDE_2", "side_1", "comp 3", "comp", "A_COMPONENT_WITH_A_VERY_LONG_NAME_ON_THE_LEFT", "A_COMPONENT_WITH_A_VERY_LONG_NAME_ON_THE_LEFT_SIDE", "A_COMPONENT_WITH_A_VERY_LONG_NAME"}; auto* c = new FEComponent; check("component.fresh", c->type == FEComponent::NOT_DEFINED && c->name.empty() && c->list.empty(), "a new component");
      c->name = nm[r.irange(0, 8)]; c->type = r.chance(0.5) ? FEComponent::NODES : FEComponent::ELEMENTS; for (int k = (int)r.irange(0, 9); k > 0; k--) c->list.push_back((uint32)r.irange(1, 99)); m.comps.push_back({c->name, {(int)c->type, c->list}}); s.addFEComponent(c); w += "c";
    } else if (op == 13) { Mpc* p = new Mpc; p->b = r.range(-1, 1); p->eq.push_back(MpcTerm(1, Dof::UX, 1.0)); s.addMpc(p); m.mpcs++; w += "m"; if (r.chance(0.3)) { s.deleteMpc(p); m.mpcs--; w += "-"; } }
    else if (op == 14) { if (r.chance(0.5)) continue; if (r.chance(0.4)) { s.deleteElements(); m.els.clear(); w += "dE"; } else if (r.chance(0.5)) { s.deleteMpcs(); m.mpcs = 0; w += "dM"; } else { s.deleteFeComponents(); m.comps.clear(); w += "dC"; } }
    else if (r.chance(0.4)) { s.deleteMesh(); m = Mirror(); w += "D"; mon::ev("cleared"); }
    mon::note(w); verify(s, m, r, w); mon::ev("operations");
  }
  mon::sig(w); mon::sample(w);
}

static void names(Rng& r) {
  for (int i = 0; i < NK; i++) {
    check("type.name", std::string(elTypeLabels[(int)kinds[i].t]) == kinds[i].name && ElementFactory::elName2elType(kinds[i].name) == kinds[i].t, Str() << "element name " << kinds[i].name);
    std::vector<Element*> v; uint32 n = (uint32)r.irange(0, 3), before = (uint32)r.irange(0, 2); for (uint32 q = 0; q < before; q++) v.push_back(new ElementTRUSS3);
    std::vector<Element*> old = v; ElementFactory::createElements(kinds[i].t, n, v); check("factory.count", v.size() == before + n && std::equal(old.begin(), old.end(), v.begin()), Str() << "factory made " << v.size() - before << " of " << n);
    for (size_t q = before; q < v.size(); q++) check("factory.kind", v[q]->getType() == kinds[i].t && v[q]->getShape() == kinds[i].shape && v[q]->getNNodes() == kinds[i].nn && v[q]->getDim() == kinds[i].dim, Str() << "factory made another kind of element than " << kinds[i].name);
    for (auto* p : v) delete p;
  }
  // anything else is no element
  std::string t = r.pick(std::vector<std::string>{kinds[r.irange(0, NK - 1)].name, "", "ELEMENT", "UNDEFINED"}); std::string u = t;
  if (!u.empty()) switch (r.irange(0, 3)) { case 0: u += (char)r.irange('0', 'z'); break; case 1: u.pop_back(); break; case 2: u = " " + u; break; default: u[r.irange(0, (long)u.size() - 1)] = (char)r.irange('a', 'z'); }
  bool known = false; for (auto& k : kinds) known |= u == k.name; if (!known) check("type.unknown", ElementFactory::elName2elType(u) == ElementType::UNDEFINED, "\"" + u + "\" is taken for an element name");
  // DoFs
  static const char* dn[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"}; static const Dof::dofType dt[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};
  for (int i = 0; i < 8; i++) check("dof.name", Dof::label2dofType(dn[i]) == dt[i] && std::string(Dof::dofType2label(dt[i])) == dn[i], Str() << "DoF " << dn[i]);
  std::string d = dn[r.irange(0, 7)]; if (r.chance(0.5)) d += (char)r.irange('A', 'Z'); else d.pop_back(); bool isDof = false; for (auto x : dn) isDof |= d == x;
  if (!isDof) check("dof.unknown", Dof::label2dofType(d) == Dof::UNDEFINED, d + " is taken for a DoF");
  // components
  check("component.kind", FEComponent::typeFromString("ELEM") == FEComponent::ELEMENTS && FEComponent::typeFromString("NODE") == FEComponent::NODES, "kind of component");
  for (auto x : {"", "NODES", "NOD", "LAST", "NOT DEFINED", "EL", "node"}) check("component.kind.unknown", FEComponent::typeFromString(x) == FEComponent::NOT_DEFINED, std::string(x) + " is taken for a kind of component");
  // results: every code has a label of its own
  std::set<std::string> l; size_t n = 0; for (int i = 1; i < (int)scalarQuery::LAST; i++, n++) l.insert(query2label((scalarQuery)i)); for (int i = 1; i < (int)vectorQuery::LAST; i++, n++) l.insert(query2label((vectorQuery)i)); for (int i = 1; i < (int)tensorQuery::LAST; i++, n++) l.insert(query2label((tensorQuery)i));
  check("query.labels", l.size() == n && !l.count("") && !l.count("LAST") && !l.count("UNDEFINED"), "labels of element results are not distinct");
  check("query.label", std::string(query2label(scalarQuery::SP)) == "S_P" && std::string(query2label(scalarQuery::VOL)) == "VOL" && std::string(query2label(vectorQuery::FLUX)) == "FLUX" && std::string(query2label(vectorQuery::GRADT)) == "GRADT" && std::string(query2label(tensorQuery::E)) == "E" && std::string(query2label(tensorQuery::COUCHY)) == "COUCHY" && std::string(query2label(tensorQuery::PK2)) == "PK2", "label of an element result");
  // equations as text
  Mpc p; p.b = r.range(-9, 9); std::vector<std::array<double, 2>> ts; std::vector<int> td; for (int k = (int)r.irange(1, 5); k > 0; k--) { int q = (int)r.irange(0, 7); uint32 nd = (uint32)r.irange(1, 99999); double c = r.range(-9, 9); p.eq.push_back(MpcTerm((int32)nd, dt[q], c)); ts.push_back({(double)nd, c}); td.push_back(q); }
  std::ostringstream o; p.print(o); std::string e = o.str(), rest; std::istringstream in(e); bool ok = true;
  for (size_t k = 0; k < ts.size(); k++) { double c; std::string star, nd, plus; ok = ok && (in >> c >> star >> nd) && star == "*" && std::fabs(c - ts[k][1]) <= 1e-4 * std::fabs(c) && nd == std::to_string((long)ts[k][0]) + ":" + dn[td[k]]; in >> plus; ok = ok && plus == (k + 1 < ts.size() ? "+" : "="); }
  double b; ok = ok && (in >> b) && std::fabs(b - p.b) <= 1e-4 * std::fabs(b) && !(in >> rest); check("equation.print", ok, "equation printed as " + e);
  copies<ElementTRUSS3>(r); copies<ElementPLANE41>(r); copies<ElementSOLID81>(r); copies<ElementTETRA0>(r); copies<ElementTETRA1>(r); copies<ElementQUADTH>(r); copies<SurfaceLINETH>(r); copies<ElementTRIANGLE4>(r); copies<ElementINTER0>(r); copies<ElementINTER3>(r);
  mon::ev("name_tables");
}
// deformed positions; post-processors of a solver
static void rest(Rng& r) {
  auto m = randModel(r, 14, 6, false); if (!rowsFit(*m)) return;
  std::vector<std::array<double, 3>> P(m->nNodes); for (uint32 n = 1; n <= m->nNodes; n++) for (int k = 0; k < 3; k++) m->s->getNode(n).pos[k] = P[n - 1][k] = r.range(-9, 9);
  m->s->initDofs(); chooseFixed(*m, r, 0.3); announceFixed(*m, r); m->s->assignEquationNumbers(); m->s->initSolutionData(); for (uint32 i = 0; i < m->s->getU()->size(); i++) (*m->s->getU())[i] = r.range(-1, 1);
  static const Dof::dofType u3[] = {Dof::UX, Dof::UY, Dof::UZ};
  for (uint32 n = 1; n <= m->nNodes; n++) { double a[4] = {1, 1, 1, 77}, b[4] = {1, 1, 1, 77}; m->s->getNodePosition(n, a); m->s->getNodePosition(n, b, true); for (int k = 0; k < 3; k++) { double u = m->dofs.count({false, n, u3[k]}) ? m->s->getNodeDofSolution(n, u3[k]) : 0; check("position", a[k] == P[n - 1][k] && b[k] == P[n - 1][k] + u && a[3] == 77 && b[3] == 77, Str() << "position of node " << n); } mon::ev("deformed_positions"); }
  LinearFESolver solver; std::vector<std::string> log; std::vector<PostProcessor*> pp; int n = (int)r.irange(0, 5);
  for (int i = 0; i < n; i++) { Spy* p = new Spy(m->s, &log, i); pp.push_back(p); check("processor.number", solver.addPostProcessor(p) == i + 1 && p->getProc_num() == i + 1 && p->getnPost_num() == i + 1, "number of a post-processor");
    bool act = r.chance(0.5); p->setActive(act); check("processor.active", p->getActive() == act, "activity of a post-processor");
    std::string st = p->getStatus(); check("processor.status", st.find("No " + std::to_string(i + 1) + ":") != std::string::npos && st.find("spy") != std::string::npos && st.find(std::string("Active - ") + (act ? "true" : "false")) != std::string::npos && st.find("Failed - false") != std::string::npos, "status of a post-processor: " + st); }
  check("processor.count", solver.getNumberOfPostProcessors() == (size_t)n, "number of post-processors"); for (int i = 0; i < n; i++) check("processor.get", &solver.getPostProcessor(i) == pp[i], "post-processor by number"); mon::ev("post_processors", n);
  if (r.chance(0.5)) { solver.deletePostProcessors(); check("processor.deleted", solver.getNumberOfPostProcessors() == 0, "post-processors are left"); }
}
static void run(Rng& r, uint64_t c) { if (c % 5 == 3) names(r); else if (c % 5 == 4) rest(r); else history(r); }
mon::Harness mon::harness() { return {"C23", 8000, 100000, run, nullptr}; }
