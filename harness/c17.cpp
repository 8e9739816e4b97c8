// C17: result files and reaction histories contain exactly the state of the model.
#include "hyper.h"
#include "phys.h"
#include "spy.h"
#include "VtkProcessor.h"
#include "ReactionProcessor.h"
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
using namespace fe;
using mon::check; using mon::Str; using mon::Rng;

typedef std::vector<std::vector<double>> Rows;
struct Vtk { bool ok = false; std::string err; Rows points; std::vector<std::vector<long>> cells; std::vector<long> types; std::map<std::string, Rows> point, cell; bool cellSection = false; };
// own reader of the legacy format, strict about counts
static Vtk readVtk(const std::string& f) {
  Vtk v; std::ifstream in(f); if (!in) { v.err = "no file " + f; return v; }
  std::string l; std::getline(in, l); if (l.compare(0, 23, "# vtk DataFile Version ") != 0) { v.err = "signature"; return v; }
  std::getline(in, l); std::string w; in >> w; if (w != "ASCII") { v.err = "format"; return v; }
  in >> w; std::string ds; in >> ds; if (w != "DATASET" || ds != "UNSTRUCTURED_GRID") { v.err = "dataset"; return v; }
  auto num = [&](double& d) { std::string t; if (!(in >> t)) return false; char* e; d = strtod(t.c_str(), &e); return *e == 0; };
  auto rows = [&](size_t n, int k, Rows& r) { for (size_t i = 0; i < n; i++) { std::vector<double> x(k); for (auto& y : x) if (!num(y)) return false; r.push_back(x); } return true; };
  std::map<std::string, Rows>* cur = 0; size_t cnt = 0;
  while (in >> w) {
    if (w == "POINTS") { size_t n; std::string t; in >> n >> t; if (!rows(n, 3, v.points)) { v.err = "points"; return v; } }
    else if (w == "CELLS") { size_t n, sz, used = 0; in >> n >> sz; for (size_t i = 0; i < n; i++) { long k; in >> k; if (!in || k < 0 || k > 100) { v.err = "cells"; return v; } std::vector<long> c(k); for (auto& x : c) in >> x; used += k + 1; v.cells.push_back(c); } if (used != sz || !in) { v.err = "cells size"; return v; } }
    else if (w == "CELL_TYPES") { size_t n; in >> n; for (size_t i = 0; i < n; i++) { long t; if (!(in >> t)) { v.err = "cell types"; return v; } v.types.push_back(t); } }
    else if (w == "POINT_DATA") { in >> cnt; cur = &v.point; if (cnt != v.points.size()) { v.err = "point data count"; return v; } }
    else if (w == "CELL_DATA") { in >> cnt; cur = &v.cell; v.cellSection = true; if (cnt != v.cells.size()) { v.err = "cell data count"; return v; } }
    else if (w == "SCALARS" && cur) { std::string n, t, k, lt, d; in >> n >> t >> k >> lt >> d; if (k != "1" || lt != "LOOKUP_TABLE" || cur->count(n)) { v.err = "scalars " + n; return v; } if (!rows(cnt, 1, (*cur)[n])) { v.err = "values of " + n; return v; } }
    else if (w == "VECTORS" && cur) { std::string n, t; in >> n >> t; if (cur->count(n)) { v.err = "vectors " + n; return v; } if (!rows(cnt, 3, (*cur)[n])) { v.err = "values of " + n; return v; } }
    else { v.err = "unexpected " + w; return v; }
  }
  v.ok = true; return v;
}
static bool same(double got, double want) { if (std::isnan(want)) return std::isnan(got); return std::fabs(got - want) <= 1.0e-5 * std::fabs(want) + 1e-300; }
static void cmp(const std::string& k, const Rows& g, const Rows& w, const std::string& what) {
  if (!check(k, g.size() == w.size(), what + " has another number of rows")) return;
  for (size_t i = 0; i < g.size(); i++) for (size_t c = 0; c < w[i].size(); c++)
    if (!check(k, same(g[i][c], w[i][c]), Str() << what << " row " << i << " column " << c << " file " << mon::num(g[i][c]) << " model " << mon::num(w[i][c]))) return;
  mon::ev("values", g.size() * (w.empty() ? 0 : w[0].size()));
}
struct Want { std::map<std::string, Rows> point, cell; };
static const Dof::dofType U3[3] = {Dof::UX, Dof::UY, Dof::UZ};
static const char* TN[6] = {"XX", "XY", "XZ", "YY", "YZ", "ZZ"};

// what a file written now must contain
static Want want(FEStorage& s, const std::set<scalarQuery>& sq, const std::set<vectorQuery>& vq, const std::set<tensorQuery>& tq) {
  Want w; uint32 nn = s.nNodes(), ne = s.nElements(); bool mech = false;
  for (uint32 n = 1; n <= nn; n++) for (auto t : U3) mech |= s.isNodeDofUsed(n, t);
  if (mech) {
    Rows d, q;
    for (uint32 n = 1; n <= nn; n++) { std::vector<double> a(3), b(3); for (int k = 0; k < 3; k++) if (s.isNodeDofUsed(n, U3[k])) { uint32 e = s.getNodeDofEqNumber(n, U3[k]); a[k] = (*s.getU())[e - 1]; b[k] = (*s.getR())[e - 1]; } d.push_back(a); q.push_back(b); }
    w.point["disp"] = d; w.point["reaction"] = q;
  }
  static const Dof::dofType sc[] = {Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};
  for (auto t : sc) { bool used = false; Rows d; for (uint32 n = 1; n <= nn; n++) { double v = 0; if (s.isNodeDofUsed(n, t)) { used = true; v = (*s.getU())[s.getNodeDofEqNumber(n, t) - 1]; } d.push_back({v}); } if (used) w.point[Dof::dofType2label(t)] = d; }
  for (int ti = 0; ti < (int)Dof::UNDEFINED; ti++) { auto t = (Dof::dofType)ti; bool used = false; Rows d; for (uint32 n = 1; n <= ne; n++) { double v = 0; if (s.isElementDofUsed(n, t)) { used = true; v = (*s.getU())[s.getElementDofEqNumber(n, t) - 1]; } d.push_back({v}); } if (used) w.cell[Dof::dofType2label(t)] = d; }
  for (auto q : sq) { Rows d; for (uint32 e = 1; e <= ne; e++) { double v = 0; s.getElement(e).getScalar(&v, q); d.push_back({v}); } w.cell[query2label(q)] = d; }
  for (auto q : vq) { Rows d; for (uint32 e = 1; e <= ne; e++) { math::Vec<3> v; v.zero(); s.getElement(e).getVector(&v, q); d.push_back({v[0], v[1], v[2]}); } w.cell[query2label(q)] = d; }
  for (auto q : tq) { std::vector<Rows> d(6); for (uint32 e = 1; e <= ne; e++) { math::MatSym<3> v; v.zero(); s.getElement(e).getTensor(&v, q); for (int k = 0; k < 6; k++) d[k].push_back({v.data[k]}); } for (int k = 0; k < 6; k++) w.cell[std::string(query2label(q)) + "_" + TN[k]] = d[k]; }
  return w;
}
static void compareFile(const std::string& k, const std::string& file, FEStorage& s, const Want& w) {
  Vtk v = readVtk(file);
  if (!check(k + ".format", v.ok, file + ": " + v.err)) return;
  Rows p; for (uint32 n = 1; n <= s.nNodes(); n++) p.push_back({s.getNode(n).pos[0], s.getNode(n).pos[1], s.getNode(n).pos[2]});
  cmp(k + ".points", v.points, p, "points");
  if (check(k + ".cells", v.cells.size() == s.nElements() && v.types.size() == s.nElements(), "number of cells"))
    for (uint32 e = 1; e <= s.nElements(); e++) {
      Element& x = s.getElement(e); bool ok = v.cells[e - 1].size() == x.getNNodes(); for (uint16 i = 0; ok && i < x.getNNodes(); i++) ok = v.cells[e - 1][i] == (long)x.getNodeNumber(i) - 1;
      check(k + ".cells", ok, Str() << "nodes of cell " << e);
      long t = 0; switch (x.getShape()) { case ElementShape::QUAD: t = 9; break; case ElementShape::HEXAHEDRON: t = 12; break; case ElementShape::TETRA: t = 10; break; case ElementShape::TRIANGLE: t = 5; break; case ElementShape::LINE: t = 3; break; case ElementShape::VERTEX: t = 1; break; case ElementShape::TWIN_VERTEX: t = 2; break; case ElementShape::WEDGE: t = 13; break; default: break; }
      check(k + ".types", v.types[e - 1] == t, Str() << "type of cell " << e << " is " << v.types[e - 1] << " for a shape of type " << t); mon::ev("cells");
    }
  auto names = [](const std::map<std::string, Rows>& m) { std::string n; for (auto& x : m) n += x.first + " "; return n; };
  check(k + ".point.fields", names(v.point) == names(w.point), "point fields " + names(v.point) + "| expected " + names(w.point));
  check(k + ".cell.fields", names(v.cell) == names(w.cell), "cell fields " + names(v.cell) + "| expected " + names(w.cell));
  for (auto& f : w.point) if (v.point.count(f.first)) { cmp(k + ".point." + (f.first == "disp" || f.first == "reaction" ? f.first : "scalar"), v.point[f.first], f.second, f.first); mon::ev("point_fields"); }
  for (auto& f : w.cell) if (v.cell.count(f.first)) { cmp(k + ".cell.values", v.cell[f.first], f.second, f.first); mon::ev("cell_fields"); }
  mon::ev("files");
}

// reaction histories
struct React {
  ReactionProcessor* p = 0; std::string file; std::vector<uint32> nodes; std::vector<Dof::dofType> dofs; Rows hist; bool unwritable = false; std::vector<uint16> steps;
  void expectNow(FEStorage& s, uint16 step) {
    std::vector<double> v; for (auto d : dofs) { double x = 0; for (auto n : nodes) if (s.isNodeDofUsed(n, d)) x += (*s.getR())[s.getNodeDofEqNumber(n, d) - 1]; v.push_back(x); }
    hist.push_back(v); steps.push_back(step);
  }
  void verify(const std::string& w) {
    for (size_t d = 0; d < dofs.size(); d++) {
      auto g = p->getReactions(dofs[d]);
      if (!check("reaction.count", g.size() == hist.size() + 1, Str() << w << " history has " << g.size() << " values after " << hist.size() << " steps")) continue;
      check("reaction.start", g[0] == 0, "first value of the history");
      for (size_t i = 0; i < hist.size(); i++) mon::near("reaction.sum", g[i + 1], hist[i][d], 1e-13 * (1 + std::fabs(hist[i][d])) * nodes.size() * 100, Str() << w << " " << Dof::dofType2label(dofs[d]) << " step " << i + 1);
      mon::ev("reactions", hist.size());
    }
    for (int t = 0; t < (int)Dof::UNDEFINED; t++) if (std::find(dofs.begin(), dofs.end(), (Dof::dofType)t) == dofs.end()) { check("reaction.foreign", p->getReactions((Dof::dofType)t).empty(), "a history of a DoF that was not asked for"); break; }
    if (file.empty() || unwritable) return;
    std::ifstream in(file); std::string l; std::getline(in, l); std::istringstream hs(l); std::string x; std::vector<std::string> lab; while (hs >> x) lab.push_back(x);
    bool ok = lab.size() == dofs.size(); for (size_t d = 0; ok && d < dofs.size(); d++) ok = lab[d] == Dof::dofType2label(dofs[d]);
    check("reaction.file.header", ok, "labels in the reaction file: " + l);
    for (size_t i = 0; i <= hist.size(); i++) {
      if (!check("reaction.file.rows", (bool)std::getline(in, l), Str() << "the reaction file ends after " << i << " rows")) return;
      std::istringstream rs(l); long step; rs >> step; check("reaction.file.step", step == (i ? (long)steps[i - 1] : 0), "step number in row " + l);
      for (size_t d = 0; d < dofs.size(); d++) { double v = 1e300; rs >> v; double e = i ? hist[i - 1][d] : 0; check("reaction.file.value", std::fabs(v - e) <= 1e-5 * std::fabs(e) + 1e-9 * nodes.size(), Str() << "row " << l << " expected " << e); mon::ev("reaction_file_values"); }
    }
    check("reaction.file.rows", !std::getline(in, l), "more rows than steps");
  }
};
static std::string dir() { std::string d = "r" + std::to_string(getpid()); mkdir(d.c_str(), 0755); return d; }
static std::vector<std::string> listing(const std::string& d) { std::vector<std::string> r; DIR* p = opendir(d.c_str()); if (p) { while (auto* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(p); } std::sort(r.begin(), r.end()); return r; }
static void clean(const std::string& d) { for (auto& f : listing(d)) unlink((d + "/" + f).c_str()); }

static void pickQueries(Rng& r, VtkProcessor& v, FEStorage& s, std::set<scalarQuery>& sq, std::set<vectorQuery>& vq, std::set<tensorQuery>& tq) {
  if (r.chance(0.5)) {
    v.writeAllResults(); mon::ev("all_results");
    for (uint32 e = 1; e <= s.nElements(); e++) {
      Element& x = s.getElement(e);
      for (int q = 1; q < (int)scalarQuery::LAST; q++) { double d = 0; if (x.getScalar(&d, (scalarQuery)q)) sq.insert((scalarQuery)q); }
      for (int q = 1; q < (int)vectorQuery::LAST; q++) { math::Vec<3> d; if (x.getVector(&d, (vectorQuery)q)) vq.insert((vectorQuery)q); }
      for (int q = 1; q < (int)tensorQuery::LAST; q++) { math::MatSym<3> d; d.zero(); if (x.getTensor(&d, (tensorQuery)q)) tq.insert((tensorQuery)q); }
    }
  } else {
    for (int k = (int)r.irange(0, 3); k > 0; k--) { auto q = (scalarQuery)r.irange(1, (int)scalarQuery::LAST - 1); v.registerResults({q}); sq.insert(q); }
    for (int k = (int)r.irange(0, 2); k > 0; k--) { auto q = (vectorQuery)r.irange(1, (int)vectorQuery::LAST - 1); v.registerResults({q}); vq.insert(q); }
    for (int k = (int)r.irange(0, 2); k > 0; k--) { auto q = (tensorQuery)r.irange(1, (int)tensorQuery::LAST - 1), q2 = (tensorQuery)r.irange(1, (int)tensorQuery::LAST - 1); v.registerResults({q, q2}); tq.insert(q); tq.insert(q2); }
    if (sq.size() + vq.size() + tq.size()) mon::ev("registered_results");
  }
}
// arbitrary states written step by step
static void states(Rng& r, FEStorage& s, const std::string& w, std::function<bool()> newState) {
  std::string d = dir(), base = d + "/job"; mon::note(w);
  VtkProcessor vtk(&s, base); std::set<scalarQuery> sq; std::set<vectorQuery> vq; std::set<tensorQuery> tq;
  if (!newState()) { clean(d); rmdir(d.c_str()); return; }
  pickQueries(r, vtk, s, sq, vq, tq);
  // reactions
  std::vector<std::unique_ptr<ReactionProcessor>> own; std::vector<React> rs;
  for (int k = (int)r.irange(0, 2); k > 0; k--) {
    React x; x.file = r.chance(0.7) ? d + "/react" + std::to_string(k) + ".txt" : ""; if (!x.file.empty() && r.chance(0.15)) { x.file = d + "/absent/react.txt"; x.unwritable = true; mon::ev("unwritable"); }
    for (int q = (int)r.irange(r.chance(0.1) ? 0 : 1, 6); q > 0; q--) x.nodes.push_back((uint32)r.irange(1, s.nNodes()));
    std::vector<Dof::dofType> all; for (int t = 0; t < (int)Dof::UNDEFINED; t++) all.push_back((Dof::dofType)t);
    r.shuffle(all); all.resize(r.irange(1, 3)); x.dofs = all;
    own.emplace_back(x.file.empty() ? new ReactionProcessor(&s) : new ReactionProcessor(&s, x.file)); x.p = own.back().get(); x.p->nodes = x.nodes; x.p->dofs = x.dofs;
    rs.push_back(x);
  }
  bool again = r.chance(0.15), vast = s.nNodes() > 60000; if (vast) again = false;
  for (int round = 0; round < (again ? 2 : 1); round++) {
    vtk.pre(); for (auto& x : rs) { x.p->pre(); x.hist.clear(); x.steps.clear(); }
    compareFile("initial", base + "0.vtk", s, want(s, sq, vq, tq));
    int n = vast ? 1 : (int)r.irange(1, 4); uint16 step = 0;
    for (int k = 0; k < n; k++) {
      step = r.chance(0.8) ? step + 1 : (uint16)(step + r.irange(1, 300));
      if (!newState()) break;
      Want now = want(s, sq, vq, tq); VX U = vec(s.getU()), R = vec(s.getR());
      vtk.process(step); for (auto& x : rs) if (!x.nodes.empty()) { x.p->process(step); x.expectNow(s, step); } else x.p->process(step);
      check("observer", vec(s.getU()) == U && vec(s.getR()) == R, "writing results changed the solution");
      compareFile("state", base + std::to_string(step) + ".vtk", s, now);
    }
    vtk.post(step); for (auto& x : rs) { x.p->post(step); if (!x.nodes.empty()) x.verify(w); else { x.p->getReactions(x.dofs[0]); mon::ev("no_nodes"); } }
    if (round) mon::ev("second_analysis");
  }
  clean(d); rmdir(d.c_str());
}
static void fillVec(Rng& r, math::dVec* v, double s) { for (uint32 i = 0; i < v->size(); i++) (*v)[i] = r.chance(0.1) ? 0 : r.sign() * r.logrange(1e-9, 1e6) * s; }

static void generic(Rng& r) {
  auto m = randModel(r, 20, 12, false); if (!rowsFit(*m)) return;
  for (uint32 n = 1; n <= m->nNodes; n++) for (int k = 0; k < 3; k++) m->s->getNode(n).pos[k] = r.sign() * r.logrange(1e-6, 1e6);
  m->s->initDofs(); chooseFixed(*m, r, 0.3); announceFixed(*m, r); m->s->assignEquationNumbers(); m->s->initSolutionData();
  mon::sig(Str() << "g" << m->nNodes << "." << m->els.size() << "." << m->dofs.size());
  states(r, *m->s, Str() << "test elements, " << m->nNodes << " nodes", [&] { fillVec(r, m->s->getU(), 1); fillVec(r, m->s->getR(), 1); m->s->updateResults(); return true; });
}
static void shipped(Rng& r, bool vast = false) {
  int family = (int)r.irange(0, 4); Phys p = randPhys(r, family);
  FEStorage s; uint32 off = vast ? 66000 : 0; s.createNodes(off + (uint32)p.pos.size()); // many nodes: numbers beyond 16 bits
  for (uint32 i = 1; i <= off; i++) for (int k = 0; k < 3; k++) s.getNode(i).pos[k] = r.range(-1, 1);
  for (uint32 i = 1; i < off; i += 100) { auto* e = new ElementTRUSS3; e->E = 1; e->A = 1; s.addElement(e); e->getNodeNumber(0) = i; e->getNodeNumber(1) = i + 1; }
  for (size_t i = 0; i < p.pos.size(); i++) for (int k = 0; k < 3; k++) s.getNode(off + i + 1).pos[k] = p.pos[i](k);
  std::vector<Phys::E> els = p.els;
  // elements of another kind with the same shape on the same nodes
  if (r.chance(0.4)) for (auto& e : p.els) if (r.chance(0.5)) { Phys::E x = e; switch (e.type) { case 0: x.type = 4; x.a = 1; x.c = 5; break; case 1: x.type = 2; break; case 2: x.type = 1; x.b = 0.2; break; case 4: x.type = 0; break; default: continue; } els.push_back(x); mon::ev("same_shape"); }
  if (r.chance(0.4)) for (auto& e : els) if (e.type == 1 && r.chance(0.7)) (r.chance(0.5) ? e.c : e.d) = 0; // no thermal strain
  r.shuffle(els); // which element of a type comes first must not matter
  for (auto& e : els) { Element* x = mk(s, e); for (size_t k = 0; k < e.n.size(); k++) x->getNodeNumber(k) = off + e.n[k] + 1; }
  if (vast) mon::ev("vast_models");
  s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); s.assembleGlobalEqMatrices();
  mon::sig(Str() << "p" << family << "." << p.pos.size() << "." << els.size());
  states(r, s, Str() << "family " << family, [&] { fillVec(r, s.getU(), 1e-3); fillVec(r, s.getR(), 1); s.updateResults(); return true; });
}
static void hyper(Rng& r) {
  hyp::Mesh m(r, r.chance(0.5) ? 2 : 3, 2, false, true); m.ready(); m.s.assembleGlobalEqMatrices();
  mon::sig(Str() << "h" << m.dim << "." << m.els.size() << "." << m.h.kind);
  states(r, m.s, Str() << "hyperelastic " << m.dim << "d", [&] { std::vector<std::vector<double>> U; std::vector<double> P; double worst; if (!m.randomField(r, U, P, worst)) return false; m.set(U, P); fillVec(r, m.s.getR(), 1); return true; });
}
// a whole analysis: one file per load step plus the initial one, each with the state of its step
static void analysis(Rng& r) {
  int dim = r.chance(0.5) ? 2 : 3; hyp::Mesh m(r, dim, 2, false, true); m.size = m.size; double f = 0.03 * m.size;
  NonlinearFESolver solver; solver.attachFEStorage(&m.s); math::GaussDenseEquationSolver gs; solver.attachEquationSolver(&gs);
  int steps = (int)r.irange(1, 4); solver.numberOfLoadsteps = (uint16)steps; solver.numberOfIterations = 40; solver.convergenceCriteria = 1e-5 * m.size;
  std::vector<uint32> face; double lo = 1e300, hi = -1e300; for (auto& x : m.X) { lo = std::min(lo, x[0]); hi = std::max(hi, x[0]); }
  // two far corners held by prescribed motion of all their DoFs
  size_t a = 0, b = 0; double far = -1; for (size_t i = 0; i < m.X.size(); i++) { double dd = 0; for (int k = 0; k < 3; k++) dd += (m.X[i][k] - m.X[0][k]) * (m.X[i][k] - m.X[0][k]); if (dd > far) { far = dd; b = i; } }
  double sc = 0; (void)sc; std::set<size_t> held = {a, b}; for (size_t i = 0; i < m.X.size() && held.size() < (size_t)(dim + 1); i++) held.insert((size_t)r.irange(0, (long)m.X.size() - 1));
  for (auto i : held) { for (int k = 0; k < dim; k++) solver.addFix(m.num[i], hyp::Mesh::ut(k), i == a ? 0.0 : r.range(-f, f)); face.push_back(m.num[i]); }
  if (m.h.c[0] > 1e3) return;
  std::string d = dir(), base = d + "/job"; std::string rf = d + "/react.txt";
  auto* vtk = new VtkProcessor(&m.s, base); vtk->writeAllResults(); auto* rp = new ReactionProcessor(&m.s, rf); rp->nodes = face; bool autoDofs = r.chance(0.6); if (!autoDofs) for (int k = 0; k < dim; k++) rp->dofs.push_back(hyp::Mesh::ut(k));
  std::vector<std::string> log; std::vector<Want> wants; React x; x.p = rp; x.file = rf; x.nodes = face; for (int k = 0; k < dim; k++) x.dofs.push_back(hyp::Mesh::ut(k));
  auto* spy = new Spy(&m.s, &log, 1); std::set<scalarQuery> sq = {scalarQuery::SP, scalarQuery::W, scalarQuery::WU, scalarQuery::WP, scalarQuery::VOL}; std::set<vectorQuery> vq; std::set<tensorQuery> tq;
  spy->at = [&](const char* what, int n) {
    if (std::string(what) != "process") return;
    sq.clear(); vq.clear(); tq.clear(); Element& e = m.s.getElement(1);
    for (int q = 1; q < (int)scalarQuery::LAST; q++) { double v = 0; if (e.getScalar(&v, (scalarQuery)q)) sq.insert((scalarQuery)q); }
    for (int q = 1; q < (int)vectorQuery::LAST; q++) { math::Vec<3> v; if (e.getVector(&v, (vectorQuery)q)) vq.insert((vectorQuery)q); }
    for (int q = 1; q < (int)tensorQuery::LAST; q++) { math::MatSym<3> v; v.zero(); if (e.getTensor(&v, (tensorQuery)q)) tq.insert((tensorQuery)q); }
    wants.push_back(want(m.s, sq, vq, tq)); x.expectNow(m.s, (uint16)n);
  };
  solver.addPostProcessor(spy); solver.addPostProcessor(vtk); solver.addPostProcessor(rp);
  mon::note(Str() << "analysis " << dim << "d " << steps << " steps " << m.els.size() << " elements");
  int rc = inChild("analysis", [&] { solver.solve(); return 7; });
  clean(d);
  if (rc != 7) { mon::ev("not_converged"); rmdir(d.c_str()); return; }
  solver.solve();
  std::vector<std::string> files; for (int k = 0; k <= steps; k++) files.push_back("job" + std::to_string(k) + ".vtk"); files.push_back("react.txt"); std::sort(files.begin(), files.end());
  check("analysis.files", listing(d) == files, "the set of files after the analysis");
  for (int k = 1; k <= steps && k <= (int)wants.size(); k++) compareFile("analysis", base + std::to_string(k) + ".vtk", m.s, wants[k - 1]);
  x.verify("analysis"); if (autoDofs) { check("reaction.auto", rp->dofs == x.dofs, "automatically chosen DoFs"); mon::ev("auto_dofs"); }
  clean(d); rmdir(d.c_str()); mon::ev("analyses");
}
// automatic choice of reaction DoFs
static void choice(Rng& r) {
  FEStorage s; int n = (int)r.irange(2, 8), loose = (int)r.irange(0, 2); s.createNodes(n + loose);
  for (int i = 1; i <= n + loose; i++) for (int k = 0; k < 3; k++) s.getNode(i).pos[k] = r.range(-1, 1);
  // trusses between the first n nodes; the loose ones only have a temperature, or nothing
  for (int i = 1; i < n; i++) { auto* e = new ElementTRUSS3; e->E = 1; e->A = 1; s.addElement(e); e->getNodeNumber(0) = i; e->getNodeNumber(1) = i + 1; }
  if (loose == 2) { auto* e = new SurfaceLINETH; s.addElement(e); e->getNodeNumber(0) = n + 1; e->getNodeNumber(1) = n + 2; }
  s.initDofs(); std::vector<Dof::dofType> c; for (auto t : U3) if (r.chance(0.6)) c.push_back(t);
  std::vector<uint32> nd; for (int i = 1; i <= n; i++) if (r.chance(0.6)) nd.push_back(i); if (nd.empty()) nd.push_back(1);
  if (c.size() == 3 && (int)nd.size() == n) nd.pop_back();
  r.shuffle(nd); bool differ = nd.size() > 1 && !c.empty() && r.chance(0.3); uint32 odd = nd[r.irange(differ ? 1 : 0, (long)nd.size() - 1)];
  for (auto i : nd) for (auto t : c) if (!(differ && i == odd && t == c[0])) s.setConstrainedNodeDof(i, t);
  if (loose && !differ && !c.empty() && r.chance(0.5)) { nd.insert(nd.begin() + r.irange(1, (long)nd.size()), (uint32)r.irange(n + 1, n + loose)); differ = true; mon::ev("dof_not_there"); if (loose == 2 && r.chance(0.5)) s.setConstrainedNodeDof(n + 1, Dof::TEMP); }
  s.assignEquationNumbers(); s.initSolutionData();
  ReactionProcessor p(&s); p.nodes = nd;
  if (differ) { check("reaction.differ", inChild("choice", [&] { p.pre(); return 0; }) == -1, "nodes with different prescribed DoFs are accepted without telling it"); mon::ev("different_sets"); return; }
  p.pre(); check("reaction.choice", p.dofs == c, "chosen reaction DoFs"); mon::ev("auto_dofs");
}
static void run(Rng& r, uint64_t c) {
  if (c == 6) return shipped(r, true);
  switch (r.irange(0, 9)) { case 0: case 1: case 2: generic(r); break; case 3: case 4: case 5: shipped(r); break; case 6: case 7: hyper(r); break; case 8: choice(r); break; default: analysis(r); }
}
mon::Harness mon::harness() { return {"C17", 4000, 60000, run, nullptr}; }
