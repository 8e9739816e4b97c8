// C21: the command line program solves the model of the given file, prints its reactions and tells by its exit status whether all went well.
#undef main
#include "fe.h"
#include "spy.h"
#include "FESolver.h"
#include "FEReaders.h"
#include "ReactionProcessor.h"
#include "materials/MaterialFactory.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
#include <cstdarg>
#include <random>
#include <array>
using namespace fe;
using mon::check; using mon::Str; using mon::ev; using mon::Rng;
int nla3d_main(int argc, char* argv[]);
static std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const char* LAB[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ"}; static const Dof::dofType TYP[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ};
struct Bc { int node, dof; double v; };
struct Ce { std::vector<std::array<double, 3>> t; };
struct Model {
  bool solid, rigid; int nx, ny, nz; std::vector<std::array<double, 3>> pos; std::vector<std::vector<int>> el; std::vector<Bc> fix, load; std::vector<Ce> ce; int master = -1, spare = 0;
  std::vector<int> bottom, top; std::string mat; std::vector<double> C;
  std::vector<uint32> num; // file number of each node
  std::vector<int> order;  // order in the file
};
static Model gen(Rng& r) {
  Model m; m.solid = r.chance(0.5); m.rigid = m.solid && r.chance(0.5); m.nx = (int)r.irange(1, 2); m.ny = (int)r.irange(1, 2); m.nz = m.solid ? 1 : 0;
  for (int k = 0; k <= m.nz; k++) for (int j = 0; j <= m.ny; j++) for (int i = 0; i <= m.nx; i++) m.pos.push_back({i + r.range(-.1, .1), j + r.range(-.1, .1), m.solid ? k + r.range(-.1, .1) : 0});
  auto id = [&](int i, int j, int k) { return (k * (m.ny + 1) + j) * (m.nx + 1) + i; };
  for (int j = 0; j < m.ny; j++) for (int i = 0; i < m.nx; i++) { std::vector<int> e = {id(i, j, 0), id(i + 1, j, 0), id(i + 1, j + 1, 0), id(i, j + 1, 0)}; if (m.solid) for (int q = 0; q < 4; q++) e.push_back(e[q] + id(0, 0, 1)); m.el.push_back(e); }
  std::shuffle(m.el.begin(), m.el.end(), std::mt19937((unsigned)r.next()));
  int all = (int)m.pos.size(), layer = m.solid ? all / 2 : m.nx + 1, nd = m.solid ? 3 : 2;
  for (int k = 0; k < layer; k++) m.bottom.push_back(k); for (int k = all - layer; k < all; k++) m.top.push_back(k);
  for (int k : m.bottom) for (int d = 0; d < nd; d++) m.fix.push_back({k, d, 0});
  bool forces = r.chance(0.5);
  if (m.rigid) { m.master = (int)m.pos.size(); m.pos.push_back({r.range(0, 1), r.range(0, 1), r.range(1.2, 2)}); for (int d = 0; d < 6; d++) { if (forces && d < 3) m.load.push_back({m.master, d, r.range(-.05, .05)}); else m.fix.push_back({m.master, d, d < 3 ? r.range(-.08, .08) : r.range(-.06, .06)}); } }
  else if (forces) { for (int k : m.top) for (int d = 0; d < nd; d++) if (r.chance(0.7)) m.load.push_back({k, d, r.range(-.08, .08)}); if (m.load.empty()) m.load.push_back({m.top[0], 0, .05});
    if (r.chance(0.6)) { Ce c; c.t = {{{(double)m.top[0], 1, 1}}, {{(double)m.top.back(), 1, -r.range(0.5, 2)}}}; m.ce.push_back(c); } }
  else { double v[3]; for (double& x : v) x = r.range(-.1, .1); for (int k : m.top) for (int d = 0; d < nd; d++) m.fix.push_back({k, d, v[d]}); if (m.ny == 1 && !m.solid) {} }
  if (!m.solid && !forces && m.ny == 1) m.fix.pop_back(); // something has to be unknown besides the pressures
  static const char* mats[] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin"}; int q = (int)r.irange(0, 2); m.mat = mats[q]; if (q == 0) m.C = {r.range(.5, 2), r.range(10, 40)}; else if (q == 1) m.C = {r.range(.4, 1), r.range(-.02, .1), r.range(0, .1), r.range(0.02, .2), r.range(10, 40)}; else m.C = {r.range(.4, 1), r.range(.05, .4), r.range(10, 40)};
  static const uint32 mx[] = {0, 200, 99999, 9999999}; uint32 M = mx[r.irange(0, 3)]; int n = (int)m.pos.size(); std::set<uint32> used;
  for (int i = 0; i < n; i++) { uint32 v; if (M == 0) v = i + 1; else do v = (uint32)r.irange(1, M); while (used.count(v)); used.insert(v); m.num.push_back(v); m.order.push_back(i); }
  if (r.chance(0.7)) std::shuffle(m.order.begin(), m.order.end(), std::mt19937((unsigned)r.next()));
  if (r.chance(0.4)) std::shuffle(m.num.begin(), m.num.end(), std::mt19937((unsigned)r.next()));
  return m;
}
static std::string cdb(Rng& r, const Model& m) {
  std::string s = "/COM,ANSYS RELEASE 15.0\n/PREP7\nET,       1,185\n"; uint32 mx = *std::max_element(m.num.begin(), m.num.end());
  s += fmt("NBLOCK,6,SOLID,%u,%u\n(3i9,6e20.13)\n", mx, (unsigned)m.num.size()); for (int i : m.order) s += fmt("%9u%9d%9d%20.13E%20.13E%20.13E\n", m.num[i], 0, 0, m.pos[i][0], m.pos[i][1], m.pos[i][2]); s += "N,R5.3,LOC,       -1,\n";
  s += fmt("EBLOCK,19,SOLID,%u,%u\n(19i9)\n", (unsigned)m.el.size() + 9, (unsigned)m.el.size()); int en = 1;
  auto row = [&](int type, const std::vector<int>& v) { s += fmt("%9d%9d%9d%9d%9d%9d%9d%9d%9d%9d%9d", 1, type, 1, 1, 0, 0, 0, 0, (int)v.size(), 0, en); en += (int)r.irange(1, 3); for (int k : v) s += fmt("%9u", m.num[k]); s += "\n"; };
  for (auto& e : m.el) { if (r.chance(0.2)) row(2, {e[0], e[1]}); row(1, e); } if (r.chance(0.3)) row(2, {m.el[0][0]}); s += "       -1\n";
  auto comp = [&](const char* n, bool nodes, std::vector<uint32> l) { std::sort(l.begin(), l.end()); s += fmt("CMBLOCK,%s,%s,%8u\n(8i10)\n", n, nodes ? "NODE" : "ELEM", (unsigned)l.size()); for (size_t i = 0; i < l.size(); i++) s += fmt("%10u%s", l[i], i % 8 == 7 || i + 1 == l.size() ? "\n" : ""); };
  auto numbers = [&](const std::vector<int>& v) { std::vector<uint32> o; for (int k : v) o.push_back(m.num[k]); return o; };
  comp("BOTTOM", true, numbers(m.bottom)); comp("TOP_SIDE", true, numbers(m.top)); if (m.rigid) comp("MASTER", true, {m.num[m.master]}); comp("CELLS", false, {1});
  auto bcs = m.fix; std::shuffle(bcs.begin(), bcs.end(), std::mt19937((unsigned)r.next())); for (auto& b : bcs) s += fmt("D,%9u,%-4s,%.10g    ,  0.00000000    \n", m.num[b.node], LAB[b.dof], b.v);
  for (auto& b : m.load) s += fmt("F,%9u,F%c  ,%.10g    ,  0.00000000    \n", m.num[b.node], "XYZ"[b.dof], b.v);
  int k = 1; for (auto& c : m.ce) { s += fmt("CE,R5.0,DEFI,%8d,%8d,  0.00000000\nCE,R5.0,NODE", (int)c.t.size(), k++); for (auto& t : c.t) s += fmt(",%9u,%s  ,%.10g", m.num[(int)t[0]], LAB[(int)t[1]], t[2]); s += "\n"; }
  return s + "/GO\nFINISH\n";
}
struct Curve { std::vector<std::vector<double>> v; bool ok = false; double scale = 0; std::map<std::string, std::vector<double>> fields; }; // [dof][step]; arrays of the last result file
// the same model built directly, its nodes numbered in another order
static Curve direct(const Model& m, int steps, int iters, const std::vector<int>& nodes, const std::vector<Dof::dofType>& dofs) {
  FEStorage s; NonlinearFESolver sol; uint32 N = (uint32)m.pos.size(); auto no = [&](int k) { return N - (uint32)k; };
  s.material = MaterialFactory::createMaterial(m.mat); for (size_t i = 0; i < m.C.size(); i++) s.material->Ci((uint16)i) = m.C[i];
  s.createNodes(N); for (uint32 k = 0; k < N; k++) for (int a = 0; a < 3; a++) s.getNode(no(k)).pos[a] = m.pos[k][a];
  for (auto& e : m.el) { Element* x = m.solid ? (Element*)new ElementSOLID81 : (Element*)new ElementPLANE41; s.addElement(x); for (size_t q = 0; q < e.size(); q++) x->getNodeNumber((uint16)q) = no(e[q]); }
  for (auto& b : m.fix) sol.addFix((int32)no(b.node), TYP[b.dof], b.v); for (auto& b : m.load) sol.addLoad((int32)no(b.node), TYP[b.dof], b.v);
  for (auto& c : m.ce) { Mpc* p = new Mpc; p->b = 0; for (auto& t : c.t) p->eq.push_back(MpcTerm((int32)no((int)t[0]), TYP[(int)t[1]], t[2])); s.addMpc(p); }
  if (m.rigid) { auto* p = new RigidBodyMpc; p->storage = &s; p->masterNode = no(m.master); for (int k : m.top) p->slaveNodes.push_back(no(k)); p->dofs = {Dof::UX, Dof::UY, Dof::UZ}; s.addMpcCollection(p); }
  math::GaussDenseEquationSolver es; sol.attachFEStorage(&s); sol.attachEquationSolver(&es); sol.numberOfLoadsteps = (uint16)steps; sol.numberOfIterations = (uint16)iters;
  auto* rp = new ReactionProcessor(&s); for (int k : nodes) rp->nodes.push_back(no(k)); rp->dofs = dofs; sol.addPostProcessor(rp); auto* all = new ReactionProcessor(&s); for (int k : m.bottom) all->nodes.push_back(no(k)); all->dofs = {Dof::UX, Dof::UY}; sol.addPostProcessor(all); std::vector<std::string> log; sol.addPostProcessor(new Spy(&s, &log, 0));
  sol.solve(); Curve c; c.ok = std::find(log.begin(), log.end(), "post0") != log.end(); for (auto d : dofs) c.v.push_back(rp->getReactions(d)); for (auto& v : c.v) for (double x : v) c.scale = std::max(c.scale, std::fabs(x)); for (auto d : all->dofs) for (double x : all->getReactions(d)) c.scale = std::max(c.scale, std::fabs(x));
  auto& F = c.fields; for (int k : m.order) for (int a = 0; a < 3; a++) { F["POINTS"].push_back(m.pos[k][a]); F["disp"].push_back(s.isNodeDofUsed(no(k), TYP[a]) ? s.getNodeDofSolution(no(k), TYP[a]) : 0); F["reaction"].push_back(s.getReaction(no(k), TYP[a])); }
  for (uint32 i = 1; i <= s.nElements(); i++) { Element& e = s.getElement(i);
    for (int q = (int)scalarQuery::UNDEF + 1; q < (int)scalarQuery::LAST; q++) { double v = 0; if (e.getScalar(&v, (scalarQuery)q)) F[query2label((scalarQuery)q)].push_back(v); }
    for (int q = (int)vectorQuery::UNDEF + 1; q < (int)vectorQuery::LAST; q++) { math::Vec<3> v; if (e.getVector(&v, (vectorQuery)q)) for (int a = 0; a < 3; a++) F[query2label((vectorQuery)q)].push_back(v[a]); }
    for (int q = (int)tensorQuery::UNDEF + 1; q < (int)tensorQuery::LAST; q++) { math::MatSym<3> v; v.zero(); if (e.getTensor(&v, (tensorQuery)q)) for (int a = 0; a < 6; a++) F[query2label((tensorQuery)q) + std::string("_") + solidmech::labelsTensorComponent[a]].push_back(v.data[a]); } }
  return c;
}
static std::string D;
// in a child, because a model may turn out to be unstable
static Curve reference(const Model& m, int steps, int iters, const std::vector<int>& nodes, const std::vector<Dof::dofType>& dofs) {
  std::string f = D + "/ref.bin"; Curve c;
  int rc = inChild("direct", [&] { Curve q = direct(m, steps, iters, nodes, dofs); if (!q.ok) return 1; FILE* o = fopen(f.c_str(), "wb"); fwrite(&q.scale, 8, 1, o); for (auto& v : q.v) { if ((int)v.size() != steps + 1) return 2; fwrite(v.data(), 8, v.size(), o); } fclose(o); std::ofstream g(f + ".fields"); g.precision(17); for (auto& x : q.fields) { g << x.first << " " << x.second.size(); for (double v : x.second) g << " " << v; g << "\n"; } return 0; });
  if (rc != 0) return c; FILE* o = fopen(f.c_str(), "rb"); c.ok = fread(&c.scale, 8, 1, o) == 1; for (size_t d = 0; d < dofs.size(); d++) { c.v.push_back(std::vector<double>(steps + 1)); c.ok = c.ok && fread(c.v.back().data(), 8, steps + 1, o) == (size_t)steps + 1; } fclose(o);
  std::ifstream g(f + ".fields"); std::string name; size_t n; while (g >> name >> n) { auto& v = c.fields[name]; v.resize(n); for (double& x : v) g >> x; } return c;
}
struct Run { int rc; std::string out; };
static Run program(const std::vector<std::string>& args) {
  std::string o = D + "/out.txt"; std::string line; for (auto& a : args) line += a + " "; mon::note(line);
  int rc = inChild("program", [&] {
    int fd = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); if (chdir(D.c_str()) != 0) return 77; alarm(120);
    el::Configurations c; c.setToDefault(); c.setGlobally(el::ConfigurationType::Format, "%level %msg"); c.setGlobally(el::ConfigurationType::Enabled, "true"); c.setGlobally(el::ConfigurationType::ToFile, "false"); c.setGlobally(el::ConfigurationType::ToStandardOutput, "true"); el::Loggers::reconfigureAllLoggers(c); el::Loggers::removeFlag(el::LoggingFlag::ColoredTerminalOutput);
    std::vector<char*> v; for (auto& a : args) v.push_back(const_cast<char*>(a.c_str())); v.push_back(nullptr);
    int q = nla3d_main((int)args.size(), v.data()); std::cout.flush(); fflush(0); return q; });
  std::ifstream f(o); std::stringstream ss; ss << f.rdbuf(); ev("program_runs"); return {rc, ss.str()};
}
// the printed table: labels and one row of values per step
static bool table(const std::string& out, std::vector<std::string>& lab, std::vector<std::vector<double>>& rows) {
  size_t p = out.find("Reactions:"); if (p == std::string::npos) return false; std::istringstream in(out.substr(p)); std::string l; std::getline(in, l); if (!std::getline(in, l)) return false; std::istringstream h(l); std::string w; h >> w; if (w != "Loadstep") return false; while (h >> w) lab.push_back(w);
  while (std::getline(in, l) && !l.empty()) { std::istringstream x(l); double v; if (!(x >> v) || v != (double)rows.size()) break; std::vector<double> q; while (x >> v) q.push_back(v); if (q.size() != lab.size()) return false; rows.push_back(q); }
  return true;
}
static int vtks(bool rm) { int n = 0; if (DIR* d = opendir(D.c_str())) { while (auto* e = readdir(d)) { std::string f = e->d_name; if (f.find(".vtk") != std::string::npos) { n++; if (rm) unlink((D + "/" + f).c_str()); } } closedir(d); } return n; }
// all arrays of the result file of the last step
static bool arrays(const std::string& file, std::map<std::string, std::vector<double>>& F) {
  std::ifstream in(file); std::string l; if (!in) return false; std::vector<double>* to = nullptr;
  while (std::getline(in, l)) { std::istringstream h(l); std::string w, name; h >> w; if (w == "POINTS") to = &F["POINTS"]; else if (w == "SCALARS" || w == "VECTORS") { h >> name; to = &F[name]; } else if (w == "LOOKUP_TABLE") ; else if (w.empty() || isalpha((unsigned char)w[0])) { if (!w.empty() && w != "nan" && w != "inf") to = nullptr; } else if (to) { std::istringstream x(l); double v; while (x >> v) to->push_back(v); } }
  return true;
}
static std::string lastVtk(int step) { std::string best; if (DIR* d = opendir(D.c_str())) { while (auto* e = readdir(d)) { std::string f = e->d_name; size_t q = f.rfind(".vtk"); if (q == std::string::npos) continue; size_t p = q; while (p > 0 && isdigit((unsigned char)f[p - 1])) p--; if (p < q && atoi(f.substr(p, q - p).c_str()) == step) best = D + "/" + f; } closedir(d); } return best; }
static bool bad(int rc) { return rc != 0; }

static void run(Rng& r, uint64_t) {
  if (D.empty()) { char t[] = "c21.XXXXXX"; D = mkdtemp(t); char b[4096]; D = std::string(getcwd(b, sizeof b)) + "/" + D; }
  Model m = gen(r); std::string file = D + "/m.cdb"; { std::ofstream o(file); o << cdb(r, m); }
  int steps = (int)r.irange(1, 4), iters = 25; bool defaults = r.chance(0.1); if (defaults) { steps = 10; iters = 15; }
  // what to report
  std::vector<Dof::dofType> dofs; std::vector<int> nodes; std::string comp; bool autoDofs = r.chance(0.3); int nd = m.solid ? 3 : 2;
  if (m.rigid && r.chance(0.6)) { comp = "MASTER"; nodes = {m.master}; } else if (r.chance(0.5)) { comp = "BOTTOM"; nodes = m.bottom; } else { comp = "TOP_SIDE"; nodes = m.top; }
  std::vector<int> list; for (int d = 0; d < (comp == "MASTER" ? 6 : nd); d++) { bool fixedAll = true, fixedAny = false; for (int n : nodes) { bool f = false; for (auto& b : m.fix) if (b.node == n && b.dof == d) f = true; fixedAll = fixedAll && f; fixedAny = fixedAny || f; } if (autoDofs) { if (fixedAny && !fixedAll) autoDofs = false; if (fixedAll) list.push_back(d); } }
  if (list.empty()) autoDofs = false;
  if (!autoDofs) { list.clear(); int cnt = (int)r.irange(1, 2); for (int i = 0; i < cnt; i++) { int d = (int)r.irange(0, (comp == "MASTER" ? 6 : nd) - 1); if (std::find(list.begin(), list.end(), d) == list.end()) list.push_back(d); } }
  for (int d : list) dofs.push_back(TYP[d]);
  Curve ref = reference(m, steps, iters, nodes, dofs); if (!ref.ok) { ev("not_converged"); return; }
  std::vector<std::string> base = {"nla3d", file}, tail; std::vector<std::vector<std::string>> opt;
  auto add = [&](std::vector<std::string> v) { opt.push_back(v); };
  if (!m.solid || r.chance(0.5)) add({"-element", m.solid ? "SOLID81" : "PLANE41"}); size_t iMat = opt.size(); { std::vector<std::string> v = {"-material", m.mat}; for (double c : m.C) v.push_back(fmt("%.17g", c)); add(v); }
  if (!defaults) { add({"-iterations", std::to_string(iters)}); add({"-loadsteps", std::to_string(steps)}); }
  bool vtk = r.chance(0.3); if (!vtk) add({"-novtk"}); if (m.rigid) { std::vector<std::string> v = {"-rigidbody", std::to_string(m.num[m.master]), "TOP_SIDE"}; if (r.chance(0.5)) for (auto l : {"UX", "UY", "UZ"}) v.push_back(l); add(v); }
  size_t iReact = opt.size(); { std::vector<std::string> v = {"-reaction", comp}; if (!autoDofs) for (int d : list) v.push_back(LAB[d]); add(v); }
  std::mt19937 g((unsigned)r.next());
  auto args = [&](std::vector<std::vector<std::string>> o) { std::shuffle(o.begin(), o.end(), g); auto a = base; for (auto& v : o) a.insert(a.end(), v.begin(), v.end()); return a; };
  std::string cur = D + "/curve.txt";
  auto curve = [&](const std::vector<double>& v, bool eol) { std::ofstream o(cur); o << "time    disp      force   \n"; for (size_t i = 0; i < v.size(); i++) o << fmt("%6.0f. %8.2f  %.12g", 5.0 * i, 0.1 * i, v[i]) << (i + 1 < v.size() || eol ? "\n" : ""); };
  auto with = [&](double th) { auto o = opt; o.push_back({"-refcurve", cur}); o.push_back({"-threshold", fmt("%.12g", th)}); return o; };
  auto inspect = [&](const Run& q, const std::string& k) {
    std::vector<std::string> lab; std::vector<std::vector<double>> rows; if (!check(k + ".table", table(q.out, lab, rows), "no table of reactions")) return;
    bool same = lab.size() == list.size(); for (size_t i = 0; same && i < lab.size(); i++) same = lab[i] == LAB[list[i]]; if (!check(k + ".labels", same, "wrong DoFs in the table")) return;
    if (!check(k + ".rows", (int)rows.size() == steps + 1, Str() << rows.size() << " rows for " << steps << " load steps")) return;
    for (size_t i = 0; i < rows.size(); i++) for (size_t d = 0; d < lab.size(); d++) if (!mon::near(k + ".reaction", rows[i][d], ref.v[d][i], 1e-5 * std::fabs(ref.v[d][i]) + 2e-5 * ref.scale, Str() << lab[d] << " of " << comp << " at step " << i)) return;
    ev("tables"); };
  { vtks(true); Run q = program(args(opt)); if (!check("status", q.rc == 0, Str() << "exit status " << q.rc << " for a good run: " << q.out.substr(q.out.size() > 400 ? q.out.size() - 400 : 0))) return; inspect(q, "run");
    if (vtk) { std::map<std::string, std::vector<double>> F; std::string f = lastVtk(steps); if (!check("results.file", !f.empty() && arrays(f, F), "no result file of the last step")) return;
      for (auto& x : ref.fields) { if (!check("results.present", F.count(x.first) == 1, Str() << "no " << x.first << " in the result file")) return; auto& v = F[x.first]; if (!check("results.size", v.size() == x.second.size(), Str() << v.size() << " values of " << x.first)) return;
        double sc = 0; for (auto& y : ref.fields) if (y.first.substr(0, y.first.find('_')) == x.first.substr(0, x.first.find('_'))) for (double a : y.second) sc = std::max(sc, std::fabs(a));
        for (size_t i = 0; i < v.size(); i++) if (!mon::near("results.value", v[i], x.second[i], 1e-4 * sc + 1e-6, Str() << x.first << " place " << i)) return; } ev("results_compared"); }
    int n = vtks(true); check("vtk", n == (vtk ? steps + 1 : 0), Str() << n << " VTK files, " << (vtk ? "" : "not ") << "asked for, " << steps << " steps"); ev(vtk ? "with_vtk" : "without_vtk"); if (m.rigid) ev("rigid"); if (!m.ce.empty()) ev("equations"); if (autoDofs) ev("automatic_dofs"); if (defaults) ev("defaults"); mon::sig(Str() << m.num[0] << comp << list.size() << steps << m.mat); }
  switch (r.irange(0, 13)) {
  case 0: case 1: case 2: { // reference curve, around the threshold
    double th = 0.02 * (ref.scale + 1e-3), f = r.chance(0.5) ? 0.9 : 1.1; std::vector<double> v = ref.v[0]; size_t n = v.size(); if (r.chance(0.4)) v[r.next() % n] += (r.chance(0.5) ? 1 : -1) * th * f * n; else for (size_t i = 0; i < n; i++) v[i] += (r.chance(0.5) ? 1 : -1) * th * f;
    curve(v, r.chance(0.5)); Run q = program(args(with(th))); check("threshold", f < 1 ? q.rc == 0 : bad(q.rc), Str() << "exit status " << q.rc << " with a curve " << f << " thresholds away"); inspect(q, "curve"); ev(f < 1 ? "curve_within" : "curve_beyond"); break; }
  case 3: { std::vector<double> v = ref.v[0]; if (r.chance(0.5)) v.push_back(v.back()); else v.pop_back(); if (v.empty()) break; curve(v, true); Run q = program(args(with(1e6))); check("length", bad(q.rc), "a curve of another length is accepted"); ev("curve_length"); break; }
  case 4: { // a curve with repeated values
    double mean = 0; std::vector<double> v(ref.v[0].size(), 0.125); for (double x : ref.v[0]) mean += std::fabs(x - 0.125) / v.size(); bool in = r.chance(0.5); curve(v, r.chance(0.5)); Run q = program(args(with(mean * (in ? 1.05 : 0.95)))); check("repeated", in ? q.rc == 0 : bad(q.rc), Str() << "exit status " << q.rc << " with a constant curve" << (in ? "" : " beyond the threshold")); ev("curve_constant"); break; }
  case 5: { auto o = opt; o[iMat].pop_back(); Run q = program(args(o)); check("constants.few", bad(q.rc), "too few material constants are accepted"); ev("refused"); break; }
  case 6: { auto o = opt; o[iMat].push_back("1.5"); Run q = program(args(o)); check("constants.many", bad(q.rc), "too many material constants are accepted"); ev("refused"); break; }
  case 7: { auto o = opt; o[iMat][1] = r.chance(0.5) ? "Neo" : "UNDEFINED"; Run q = program(args(o)); check("material", bad(q.rc), "an unknown material is accepted"); o.erase(o.begin() + iMat); q = program(args(o)); check("material.none", bad(q.rc), "no material is accepted"); ev("refused"); break; }
  case 8: { auto o = opt; bool found = false; for (auto& v : o) if (v[0] == "-element") { v[1] = r.chance(0.5) ? "NOSUCH" : m.solid ? "PLANE41" : "SOLID81"; found = true; } if (!found) o.push_back({"-element", "PLANE41"}); Run q = program(args(o)); check("element", bad(q.rc), "a wrong element type is accepted"); ev("refused"); break; }
  case 9: { auto o = opt; o[iReact][1] = r.chance(0.5) ? "NOSUCH" : "CELLS"; Run q = program(args(o)); check("component", bad(q.rc), "a wrong component is accepted"); ev("refused"); break; }
  case 10: { auto o = opt; auto b = base; base[1] = D + "/nosuch.cdb"; Run q = program(args(o)); base = b; check("file", bad(q.rc), "a missing file is accepted"); o = with(1e6); unlink(cur.c_str()); q = program(args(o)); check("curve.file", bad(q.rc), "a missing curve is accepted"); curve(ref.v[0], true); o = with(1e6); o.erase(o.begin() + iReact); q = program(args(o)); check("curve.reaction", bad(q.rc), "a curve without a component is accepted"); ev("refused"); break; }
  case 11: { if (!m.rigid) break; auto o = opt; for (auto& v : o) if (v[0] == "-rigidbody") { if (r.chance(0.5)) v[1] = std::to_string(*std::max_element(m.num.begin(), m.num.end()) + 1); else v[2] = r.chance(0.5) ? "NOSUCH" : "CELLS"; } Run q = program(args(o)); check("rigid", bad(q.rc), "a wrong master node or component is accepted"); ev("refused"); break; }
  case 12: { if (defaults) break; auto o = opt; for (auto& v : o) if (v[0] == "-iterations") v[1] = "1"; Run q = program(args(o)); check("diverged", bad(q.rc), "a solution that did not converge is accepted"); ev("refused"); break; }
  case 13: { auto o = opt; if (o[iReact].size() > 2) o[iReact][2] = "UW"; else o[iReact].push_back("UW"); Run q = program(args(o)); check("dof", bad(q.rc), "an unknown DoF is accepted"); ev("refused"); break; }
  }
  unlink(file.c_str());
}
mon::Harness mon::harness() { return {"C21", 1000, 40000, run, nullptr}; }
