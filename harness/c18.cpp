// C18: models, solvers and their parts can be cleared, rebuilt, solved again and destroyed in any order: nothing leaks, nothing is left over.
#include "fe.h"
#include "spy.h"
#include "FESolver.h"
#include "ReactionProcessor.h"
#include "FEReaders.h"
#include "materials/MaterialFactory.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <fstream>
#include <sys/stat.h>
using namespace fe;
using mon::check; using mon::Str; using mon::ev; using mon::Rng;
typedef std::vector<double> Res;
static std::string dir() { static std::string d; if (d.empty()) { char t[] = "c18.XXXXXX"; d = mkdtemp(t); char b[4096]; d = std::string(getcwd(b, sizeof b)) + "/" + d; } return d; }
static int stageStop = 99; // how far an abandoned model gets

struct Job { // one analysis, always the same for the same seed
  uint64_t seed; int kind;
  // mesh = false: only the elements, in a storage that still has everything else
  std::unique_ptr<FESolver> make(FEStorage& s, std::vector<std::string>* log, bool post, bool mesh = true) const {
    Rng r(seed); std::unique_ptr<FESolver> sol;
    auto grid = [&](int nx, int ny, int nz) { if (mesh) s.createNodes((nx + 1) * (ny + 1) * (nz + 1)); uint32 n = 1; for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++, n++) { double x[3] = {i + r.range(-.1, .1), j + r.range(-.1, .1), nz ? k + r.range(-.1, .1) : 0}; if (mesh) for (int a = 0; a < 3; a++) s.getNode(n).pos[a] = x[a]; } };
    auto id = [&](int nx, int ny, int i, int j, int k) { return (uint32)((k * (ny + 1) + j) * (nx + 1) + i + 1); };
    auto comp = [&](const char* nm, std::vector<uint32> l) { if (!mesh) return; FEComponent* c = new FEComponent; c->name = nm; c->type = FEComponent::NODES; c->list = l; s.addFEComponent(c); };
    int nx = (int)r.irange(1, 2), ny = (int)r.irange(1, 2);
    s.setTransient(kind == 2);
    if (kind == 0) { // tetrahedra and trusses, a constraint equation
      grid(nx, ny, 1); static const int q[5][4] = {{0, 1, 3, 4}, {1, 2, 3, 6}, {4, 6, 5, 1}, {4, 7, 6, 3}, {1, 3, 4, 6}};
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { uint32 c[8] = {id(nx, ny, i, j, 0), id(nx, ny, i + 1, j, 0), id(nx, ny, i + 1, j + 1, 0), id(nx, ny, i, j + 1, 0), id(nx, ny, i, j, 1), id(nx, ny, i + 1, j, 1), id(nx, ny, i + 1, j + 1, 1), id(nx, ny, i, j + 1, 1)}; for (auto& t : q) { auto* e = new ElementTETRA0; e->E = r.range(1, 9); e->my = r.range(0, .4); for (uint16 v = 0; v < 4; v++) e->getNodeNumber(v) = c[t[v]]; s.addElement(e); } }
      auto n = s.createElements(2, ElementType::TRUSS3); for (auto k : n) { auto* e = static_cast<ElementTRUSS3*>(&s.getElement(k)); e->E = 3; e->A = 1; e->getNodeNumber(0) = 1; e->getNodeNumber(1) = s.nNodes() - (k == n[0] ? 0 : 1); }
      sol.reset(new LinearFESolver); for (uint32 k = 1; k <= s.nNodes() / 2; k++) for (auto t : {Dof::UX, Dof::UY, Dof::UZ}) sol->addFix((int32)k, t, k == 1 ? 0.01 : 0); sol->addLoad((int32)s.nNodes(), Dof::UZ, r.range(-1, 1));
      if (mesh) { Mpc* m = new Mpc; m->b = 0.02; m->eq.push_back(MpcTerm((int32)s.nNodes(), Dof::UX, 1)); m->eq.push_back(MpcTerm((int32)s.nNodes() - 1, Dof::UX, -1)); s.addMpc(m); } comp("bottom", {1, 2, 3});
    } else if (kind == 1 || kind == 2) { // heat
      grid(nx, ny, 0); auto n = s.createElements(nx * ny, ElementType::QUADTH); int c = 0; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++, c++) { auto* e = static_cast<ElementQUADTH*>(&s.getElement(n[c])); e->k = r.range(1, 5); e->rho = 1; e->c = 2; e->volFlux = r.range(-1, 1); uint32 v[4] = {id(nx, ny, i, j, 0), id(nx, ny, i + 1, j, 0), id(nx, ny, i + 1, j + 1, 0), id(nx, ny, i, j + 1, 0)}; for (uint16 k = 0; k < 4; k++) e->getNodeNumber(k) = v[k]; }
      auto* e = new SurfaceLINETH; e->flux = 1; e->htc = 2; e->etemp[0] = e->etemp[1] = 5; e->getNodeNumber(0) = 1; e->getNodeNumber(1) = 2; s.addElement(e);
      if (kind == 1) sol.reset(new LinearFESolver); else { auto* t = new LinearTransientFESolver; t->numberOfTimesteps = 5; t->initValue = 1; sol.reset(t); }
      for (int i = 0; i <= nx; i++) sol->addFix((int32)id(nx, ny, i, ny, 0), Dof::TEMP, 3); sol->addLoad(1, Dof::TEMP, r.range(-2, 2)); comp("top", {1, 2});
    } else { // hyperelastic, plane or solid, optionally with a rigid face
      bool solid = kind == 4; int nz = solid ? 1 : 0; if (solid) ny = 1; grid(nx, ny, nz); uint32 master = 0; if (solid) { auto v = s.createNodes(1); master = v[0]; s.getNode(master).pos[0] = 0.5; s.getNode(master).pos[1] = 0.5; s.getNode(master).pos[2] = 1.5; }
      Material* m = MaterialFactory::createMaterial(r.chance(0.5) ? "Neo-Hookean" : "Mooney-Rivlin"); for (uint16 i = 0; i < m->getNumC(); i++) m->Ci(i) = i + 1u == m->getNumC() ? 20 : 1.0 / (1 + i); delete s.material; s.material = m;
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { uint32 v[8] = {id(nx, ny, i, j, 0), id(nx, ny, i + 1, j, 0), id(nx, ny, i + 1, j + 1, 0), id(nx, ny, i, j + 1, 0), id(nx, ny, i, j, 1), id(nx, ny, i + 1, j, 1), id(nx, ny, i + 1, j + 1, 1), id(nx, ny, i, j + 1, 1)}; Element* e = solid ? (Element*)new ElementSOLID81 : (Element*)new ElementPLANE41; if (seed % 3 == 0) e->setIntegrationOrder(3); s.addElement(e); for (uint16 k = 0; k < (solid ? 8 : 4); k++) e->getNodeNumber(k) = v[k]; }
      auto* ns = new NonlinearFESolver; ns->numberOfLoadsteps = 2; ns->numberOfIterations = 25; ns->convergenceCriteria = 1e-4; sol.reset(ns); std::vector<uint32> bottom, top; uint32 all = (uint32)((nx + 1) * (ny + 1) * (nz + 1)), layer = (uint32)(solid ? all / 2 : nx + 1);
      for (uint32 k = 1; k <= layer; k++) bottom.push_back(k); for (uint32 k = all - layer + 1; k <= all; k++) top.push_back(k); std::vector<Dof::dofType> d = {Dof::UX, Dof::UY}; if (solid) d.push_back(Dof::UZ);
      for (auto k : bottom) for (auto t : d) sol->addFix((int32)k, t, 0);
      if (solid) { auto* rb = new RigidBodyMpc; rb->storage = &s; rb->masterNode = master; rb->dofs = d; rb->slaveNodes = top; s.addMpcCollection(rb); for (auto t : {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ}) sol->addFix((int32)master, t, t == Dof::UZ ? 0.05 : t == Dof::ROTZ ? 0.03 : 0); }
      else for (auto k : top) for (auto t : d) sol->addFix((int32)k, t, t == Dof::UY ? 0.07 : 0.02);
      comp("bottom", bottom); if (post) { auto* rp = new ReactionProcessor(&s, dir() + "/r.txt"); rp->nodes = bottom; rp->dofs = d; sol->addPostProcessor(rp); }
    }
    if (log) { auto* sp = new Spy(&s, log, 0); sol->addPostProcessor(sp); }
    static math::GaussDenseEquationSolver es; sol->attachFEStorage(&s); sol->attachEquationSolver(&es);
    return sol;
  }
};
static Res observe(FEStorage& s, bool reactions) {
  Res v; for (uint32 n = 1; n <= s.nNodes(); n++) for (int t = 0; t < (int)Dof::numberOfDofTypes; t++) if (s.isNodeDofUsed(n, (Dof::dofType)t)) { v.push_back(s.getNodeDofSolution(n, (Dof::dofType)t)); if (reactions) v.push_back(s.getReaction(n, (Dof::dofType)t)); }
  for (uint32 e = 1; e <= s.nElements(); e++) { Element& el = s.getElement(e); for (int q = 1; q < (int)scalarQuery::LAST; q++) { double x = 0; if (el.getScalar(&x, (scalarQuery)q)) v.push_back(x); } for (int q = 1; q < (int)tensorQuery::LAST; q++) { math::MatSym<3> x; x.zero(); if (el.getTensor(&x, (tensorQuery)q)) for (double c : x.data) v.push_back(c); } if (s.isElementDofUsed(e, Dof::HYDRO_PRESSURE)) v.push_back(s.getElementDofSolution(e, Dof::HYDRO_PRESSURE)); }
  v.push_back((double)s.nDofs()); v.push_back((double)s.nConstrainedDofs()); v.push_back((double)s.nUnknownDofs()); v.push_back((double)s.nMpc()); v.push_back((double)s.nNodes()); v.push_back((double)s.nElements());
  return v;
}
static void same(const std::string& k, const Res& a, const Res& b, const std::string& w) {
  if (!check(k + ".size", a.size() == b.size(), Str() << w << ": " << a.size() << " results instead of " << b.size())) return;
  double sc = 0; for (double x : b) sc = std::max(sc, std::fabs(x)); for (size_t i = 0; i < a.size(); i++) if (!mon::near(k, a[i], b[i], 1e-9 * (sc + 1), Str() << w << " result " << i)) return;
}
// one history; everything it creates is destroyed before it returns
static void history(Rng r, bool first) {
  std::vector<Job> jobs; int nj = (int)r.irange(1, 3); for (int i = 0; i < nj; i++) jobs.push_back({r.next() >> 1, (int)r.irange(0, 4)});
  auto refOf = [&](const Job& j) { FEStorage s; std::vector<std::string> log; auto sol = j.make(s, &log, false); sol->solve(); if (std::find(log.begin(), log.end(), "post0") == log.end()) return Res(); return observe(s, j.kind != 2); };
  std::vector<Res> ref; for (auto& j : jobs) { ref.push_back(refOf(j)); if (ref.back().empty()) { if (first) ev("not_converged"); return; } }
  std::unique_ptr<FEStorage> s(new FEStorage); std::unique_ptr<FESolver> sol; int cur = -1; bool solved = false; std::string w;
  auto note = [&](const std::string& x) { w += x + " "; mon::note(w); };
  int steps = (int)r.irange(2, 7);
  for (int t = 0; t < steps; t++) {
    int op = (int)r.irange(0, 10); size_t k = r.next() % jobs.size();
    if (cur < 0) { // build a model in the (new or cleared) storage
      note("build" + std::to_string(jobs[k].kind)); sol = jobs[k].make(*s, nullptr, r.chance(0.5)); cur = (int)k; solved = false; if (first) ev("models"); }
    switch (op) {
    case 0: case 1: case 2: note("solve"); sol->solve(); same(solved ? "again" : "fresh", observe(*s, jobs[cur].kind != 2), ref[cur], w); if (first) ev(solved ? "solved_again" : "solved"); solved = true; break;
    case 3: { note("cleared"); if (r.chance(0.5)) sol.reset(); bool data = r.chance(0.5); if (data && r.chance(0.5)) s->deleteSolutionData(); else data = false; s->deleteMesh(); check("cleared", s->nNodes() == 0 && s->nElements() == 0 && s->nMpc() == 0, w + "mesh left after clearing"); if (!data && r.chance(0.5)) { s->deleteSolutionData(); check("cleared.data", s->nDofs() == 0 && s->nConstrainedDofs() == 0 && s->nUnknownDofs() == 0, w + "solution data left"); } cur = -1; if (first) ev("cleared"); break; }
    case 4: note("newstorage"); if (r.chance(0.5)) { sol.reset(); s.reset(new FEStorage); } else { s.reset(new FEStorage); sol.reset(); if (first) ev("storage_before_solver"); } cur = -1; break;
    case 5: { int stop = (int)r.irange(0, 4); note("stage" + std::to_string(stop)); FEStorage o; auto so = jobs[k].make(o, nullptr, r.chance(0.5)); if (stop > 0) o.initDofs(); if (stop > 1) { so->setConstrainedDofs(); o.assignEquationNumbers(); } if (stop > 2) o.initSolutionData(); if (stop > 3) o.assembleGlobalEqMatrices(); if (r.chance(0.5)) so.reset(); if (r.chance(0.3)) o.deleteMesh(); if (r.chance(0.3)) o.deleteSolutionData(); if (first) ev("abandoned"); break; }
    case 6: { note("newsolver"); Rng q(jobs[cur].seed); FEStorage tmp; auto so = jobs[cur].make(tmp, nullptr, false); so->attachFEStorage(s.get()); tmp.deleteMesh(); so->solve(); same("new.solver", observe(*s, jobs[cur].kind != 2), ref[cur], w); solved = true; sol = std::move(so); if (first) ev("second_solver"); break; }
    case 9: { if (jobs[cur].kind > 2 || !sol) break; // other elements on the same nodes: more of them, then the original ones again
      note("remeshed"); if (r.chance(0.5) && jobs[cur].kind == 0) { s->deleteElements(); check("cleared.elements", s->nElements() == 0 && s->nNodes() > 0, w + "elements left"); uint32 nn = s->nNodes(); for (uint32 a = 1; a <= nn; a++) for (uint32 b = a + 1; b <= nn; b++) { auto* e = new ElementTRUSS3; e->E = 2; e->A = 1; e->getNodeNumber(0) = a; e->getNodeNumber(1) = b; s->addElement(e); } sol->solve(); if (first) ev("other_elements"); }
      else if (jobs[cur].kind == 1 || jobs[cur].kind == 2) { jobs[cur].make(*s, nullptr, false, false); if (r.chance(0.7)) sol->solve(); if (first) ev("more_elements"); }
      s->deleteElements(); jobs[cur].make(*s, nullptr, false, false); sol->solve(); same("remeshed", observe(*s, jobs[cur].kind != 2), ref[cur], w); solved = true; if (first) ev("remeshed"); break; }
    case 10: { // the nodes are moved between two analyses, and back
      note("moved"); double f[3], sh[3]; for (int a = 0; a < 3; a++) { f[a] = r.range(1.05, 1.4); sh[a] = r.range(-1, 1); } std::vector<std::array<double, 3>> old;
      auto move = [&](FEStorage& o) { old.clear(); for (uint32 n = 1; n <= o.nNodes(); n++) { auto& p = o.getNode(n).pos; old.push_back({p[0], p[1], p[2]}); for (int a = 0; a < 3; a++) p[a] = p[a] * f[a] + (jobs[cur].kind < 4 && a == 2 ? 0 : sh[a]); } };
      Res want; { FEStorage o; auto so = jobs[cur].make(o, nullptr, false); move(o); so->solve(); want = observe(o, jobs[cur].kind != 2); }
      if (!sol) break; if (!solved && r.chance(0.7)) sol->solve(); move(*s); sol->solve(); same("moved", observe(*s, jobs[cur].kind != 2), want, w);
      for (uint32 n = 1; n <= s->nNodes(); n++) for (int a = 0; a < 3; a++) s->getNode(n).pos[a] = old[n - 1][a]; sol->solve(); same("moved.back", observe(*s, jobs[cur].kind != 2), ref[cur], w); solved = true; if (first) ev("moved"); break; }
    case 7: { note("other"); same("other", refOf(jobs[k]), ref[k], w); if (first) ev("interleaved"); break; }
    case 8: { note("reader"); std::string f = dir() + "/m.cdb"; { std::ofstream o(f); o << "NBLOCK,6,SOLID\n(3i8,6e16.9)\n"; for (int i = 1; i <= 4; i++) { char b[128]; snprintf(b, sizeof b, "%8d%8d%8d%16.9E%16.9E%16.9E\n", i, 0, 0, i * 1.0, i % 2 * 1.0, 0.0); o << b; } o << "N,R5.3,LOC,-1\nD,1,UX,0.5\nCE,R5.0,DEFI,2,1,0.5\nCE,R5.0,NODE,1,UX,1.0,2,UX,-1.0\nCMBLOCK,TOP,NODE,3\n(8i10)\n         1        -3         4\n"; } MeshData md; bool ok = readCdbFile(f, md); auto drop = [&] { for (auto* p : md.mpcs) delete p; md.mpcs.clear(); }; if (ok && r.chance(0.7)) { drop(); ok = readCdbFile(f, md); } check("reader", ok && md.nodesNumbers.size() == 4 && md.mpcs.size() == 1 && md.fixBcs.size() == 1 && md.feComps.size() == 1, w + "file is not read"); drop(); if (r.chance(0.5)) md.clear(); unlink(f.c_str()); if (first) ev("readers"); break; }
    }
  }
  if (r.chance(0.5)) { s.reset(); sol.reset(); } else { sol.reset(); s.reset(); }
  if (first) mon::sig(Str() << w << jobs[0].seed % 1000);
}
static void run(Rng& r, uint64_t) {
  Rng h(r.next()); history(h, true);
  ev("leak_checks"); size_t before = __sanitizer_get_current_allocated_bytes(); { history(h, false); } unlink((dir() + "/r.txt").c_str()); rmdir(dir().c_str()); mkdir(dir().c_str(), 0700);
  size_t after = __sanitizer_get_current_allocated_bytes(); 
  if (after > before) { history(h, false); size_t third = __sanitizer_get_current_allocated_bytes(); check("leak", third <= after, Str() << "memory in use grows by " << (double)third - (double)after << " bytes with each repetition of the history"); }
}
mon::Harness mon::harness() { return {"C18", 1500, 40000, run, nullptr}; }
