// C22: reference files of matrices and vectors keep the exact values and are compared strictly.
#include "fe.h"
#include "spy.h"
#include "FESolver.h"
#include <fstream>
#include <sys/stat.h>
using namespace fe;
using mon::check; using mon::Str; using mon::ev;
static std::string dir() { static std::string d; if (d.empty()) { char t[] = "c22.XXXXXX"; d = mkdtemp(t); char b[4096]; d = std::string(getcwd(b, sizeof b)) + "/" + d; } return d; }
static double big(mon::Rng& r) { switch (r.irange(0, 5)) { case 0: return (double)r.irange(-9, 9); case 1: return r.sign() * r.logrange(1e-200, 1e200); case 2: return r.sign() / 3.0 * r.logrange(1e-3, 1e3); default: return r.range(-10, 10); } }

template <class MT, bool SYM> static void matrices(mon::Rng& r) {
  uint32 nr = (uint32)r.irange(1, 12), nc = SYM ? nr : (uint32)r.irange(1, 12); std::map<std::pair<uint32, uint32>, double> v;
  for (int k = (int)r.irange(0, 40); k > 0; k--) { uint32 i = (uint32)r.irange(1, nr), j = (uint32)r.irange(1, nc); if (SYM && i > j) std::swap(i, j); v[{i, j}] = big(r); }
  if (SYM) for (uint32 i = 1; i <= nr; i++) if (!v.count({i, i})) v[{i, i}] = big(r);
  std::vector<math::SparseEntry> e; for (auto& x : v) { math::SparseEntry q; q.i = x.first.first; q.j = x.first.second; q.v = x.second; e.push_back(q); } r.shuffle(e);
  MT m; static_cast<math::BaseSparseMatrix&>(m).reinit(nr, nc, e);
  std::stringstream s; auto pr = s.precision((int)r.irange(1, 9)); (void)pr; auto p0 = s.precision(); if (r.chance(0.5)) s.setf(std::ios_base::fixed, std::ios_base::floatfield); auto f0 = s.flags();
  m.writeCoordinateTextFormat(s); check("stream", s.precision() == p0 && s.flags() == f0, "settings of the stream changed");
  std::string text = s.str(); MT q; bool pre = r.chance(0.5); if (pre) static_cast<math::BaseSparseMatrix&>(q).reinit(nr, nc, e); q.readCoordinateTextFormat(s); check("read", (bool)s || s.eof(), "text is incomplete");
  if (!check("shape", q.nRows() == nr && q.nColumns() == nc && q.nValues() == m.nValues(), "shape after reading")) return;
  for (uint32 i = 1; i <= nr; i++) for (uint32 j = 1; j <= nc; j++) { auto it = v.find(SYM && i > j ? std::make_pair(j, i) : std::make_pair(i, j)); double x = it == v.end() ? 0.0 : it->second; check("value", q.value(i, j) == x, Str() << "entry " << i << "," << j << " " << mon::num(q.value(i, j)) << " instead of " << mon::num(x)); }
  ev("matrix_texts"); check("equal", q.compare(m, 0.0) && m.compare(q, 0.0), "the same matrix isn't accepted");
  if (v.empty()) return;
  { // one value changed
    auto e2 = e; double th = r.logrange(1e-9, 1e-1); size_t k = r.next() % e2.size(); double old = e2[k].v; if (std::fabs(old) < 1e3) { e2[k].v += r.sign() * th * r.range(1.5, 30); MT w; static_cast<math::BaseSparseMatrix&>(w).reinit(nr, nc, e2); check("different", !m.compare(w, th) && !w.compare(m, th), "a different value is accepted"); e2[k].v = old + r.sign() * th * r.range(0, 0.9); static_cast<math::BaseSparseMatrix&>(w).reinit(nr, nc, e2); check("close", m.compare(w, th), "a value within the threshold is refused"); ev("changed_values"); }
    e2[k].v = NAN; MT w; static_cast<math::BaseSparseMatrix&>(w).reinit(nr, nc, e2); check("nan", !m.compare(w, 1.0) && !w.compare(m, 1.0), "NaN accepted"); }
  { // a different pattern: one entry more, moved or in another shape
    std::vector<std::pair<uint32, uint32>> fr; for (uint32 i = 1; i <= nr; i++) for (uint32 j = SYM ? i : 1; j <= nc; j++) if (!v.count({i, j})) fr.push_back({i, j});
    if (!fr.empty()) { auto p = r.pick(fr); auto e2 = e; math::SparseEntry q2; q2.i = p.first; q2.j = p.second; q2.v = 0; int how = (int)r.irange(0, 1); if (how) e2.push_back(q2); else { size_t k = r.next() % e2.size(); if (SYM && e2[k].i == e2[k].j) e2.push_back(q2); else { q2.v = e2[k].v; e2[k] = q2; } } MT w; static_cast<math::BaseSparseMatrix&>(w).reinit(nr, nc, e2); check("pattern", !m.compare(w, 1e300), "a different pattern is accepted"); ev("changed_patterns"); }
    uint32 nr2 = nr + 1, nc2 = SYM ? nr2 : nc + (uint32)r.irange(0, 1); auto e2 = e; if (SYM) { math::SparseEntry d; d.i = d.j = nr2; d.v = 0; e2.push_back(d); } MT w; static_cast<math::BaseSparseMatrix&>(w).reinit(nr2, nc2, e2); check("shape.compare", !m.compare(w, 1e300) && !w.compare(m, 1e300), "a different shape is accepted"); }
}
struct Sys { std::unique_ptr<RandModel> m; std::unique_ptr<FESolver> s; };
// the same seed gives the same system, up to one perturbation
static Sys build(uint64_t seed, bool tr, int what, double by) {
  mon::Rng r(seed); Sys y; y.m = randModel(r, 16, 7, r.chance(0.3), true); RandModel& m = *y.m; if (!rowsFit(m)) return y;
  double sc = r.chance(0.4) ? r.logrange(1e-3, 1e11) : 1.0;
  auto spd = [&](int n) { MX B(n, n), K = MX::Zero(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = r.range(-1, 1); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double v = i == j ? 0.5 : 0; for (int k = 0; k < n; k++) v += B(k, i) * B(k, j); K(i, j) = v * sc; K(j, i) = v * sc; } return K; };
  for (auto* e : m.els) { int n = (int)e->ids.size(); e->Ke = spd(n); e->Ce = spd(n); e->Me = spd(n); for (int i = 0; i < n; i++) e->Fe(i) = r.chance(0.4) ? 0 : r.range(-1, 1) * sc; }
  if (what >= 1 && what <= 4) { auto* e = m.els[seed % m.els.size()]; if (e->ids.empty()) return y; int n = (int)e->ids.size(), i = (int)((seed >> 8) % n), j = (int)((seed >> 16) % n); MX& K = what == 1 ? e->Ke : what == 2 ? e->Ce : e->Me; if (what == 4) e->Fe(i) += by; else { K(i, j) += by; if (i != j) K(j, i) += by; } }
  if (tr) y.s.reset(new LinearTransientFESolver); else y.s.reset(new LinearFESolver);
  for (auto& d : m.dofs) if (!d.el && r.chance(0.25)) m.fixed.insert(d); if (m.fixed.size() == m.dofs.size()) m.fixed.clear();
  for (auto& d : m.fixed) y.s->addFix((int32)d.n, d.t, r.range(-1, 1));
  for (auto& d : m.dofs) if (!d.el && !m.fixed.count(d) && r.chance(0.2)) y.s->addLoad((int32)d.n, d.t, r.range(-1, 1) * sc);
  return y;
}
static void start(Sys& y, bool tr) { y.s->attachFEStorage(y.m->s); static math::GaussDenseEquationSolver es; y.s->attachEquationSolver(&es);
  if (tr) { auto* t = static_cast<LinearTransientFESolver*>(y.s.get()); t->numberOfTimesteps = 2; t->solve(); } else y.s->solve(); }
static void systems(mon::Rng& r) {
  uint64_t seed = r.next(); bool tr = r.chance(0.4); Sys a = build(seed, tr, 0, 0); if (!a.s) { ev("skipped_row_capacity"); return; }
  for (auto& q : a.m->mpcs) if (q.first.empty()) return; if (tr && !a.m->mpcs.empty()) return;
  // constraints make the system indefinite or singular: only assemble then
  bool solve = a.m->mpcs.empty(); std::string fn = dir() + "/dump.txt", w = tr ? "transient" : "static"; mon::note(w + (solve ? "" : " with constraints"));
  if (!solve) return;
  start(a, tr); if (r.chance(0.4)) { if (r.chance(0.5)) { std::ofstream o(fn); for (int i = 0; i < 20000; i++) o << i << "\n"; } else a.s->dumpMatricesAndVectors(fn); ev("dumps_over_old_file"); } // an old file is replaced
  a.s->dumpMatricesAndVectors(fn); ev(tr ? "transient_dumps" : "static_dumps"); mon::sig(Str() << seed);
  // the file holds every block and vector
  { std::ifstream in(fn); auto rd = [&](const MX& D, uint32 n1, const char* nm) { for (int b = 0; b < 3; b++) { long nr, nc, nv; in >> nr >> nc >> nv; long i0 = b == 2 ? n1 : 0, j0 = b == 0 ? 0 : n1, er = b == 2 ? (long)D.rows() - n1 : (long)n1, ec = b == 0 ? (long)n1 : (long)D.rows() - n1; if (!check("file.shape", in && nr == er && nc == ec, Str() << nm << " block " << b << ": " << nr << "x" << nc << " instead of " << er << "x" << ec)) return; MX X = MX::Zero(D.rows(), D.rows()); for (long k = 0; k < nv; k++) { long i, j; double v; in >> i >> j >> v; if (!check("file.index", in && i >= 1 && i <= nr && j >= 1 && j <= nc && X(i0 + i - 1, j0 + j - 1) == 0.0, "entry outside its block or twice")) return; X(i0 + i - 1, j0 + j - 1) = v; }
        for (long i = 0; i < er; i++) for (long j = (b == 1 ? 0 : i); j < ec; j++) check("file.value", X(i0 + i, j0 + j) == D(i0 + i, j0 + j), Str() << nm << " " << i0 + i << "," << j0 + j << ": " << mon::num(X(i0 + i, j0 + j)) << " instead of " << mon::num(D(i0 + i, j0 + j))); ev("file_blocks"); } };
    FEStorage& s = *a.m->s; uint32 n1 = s.nConstrainedDofs(); rd(dense(s.getK()), n1, "K"); if (tr) { rd(dense(s.getC()), n1, "C"); rd(dense(s.getM()), n1, "M"); }
    auto rv = [&](math::dVec* v, const char* nm) { long n; in >> n; if (!check("file.vector", in && n == (long)v->size(), Str() << nm << " size")) return; for (long i = 0; i < n; i++) { double x; in >> x; check("file.vector", in && x == (*v)[(uint32)i], Str() << nm << " entry " << i << " " << mon::num(x) << " instead of " << mon::num((*v)[(uint32)i])); } ev("file_vectors"); };
    rv(s.getF(), "F"); rv(s.getR(), "R"); std::string rest; check("file.end", !(in >> rest), "more values than expected"); }
  auto cmp = [&](FESolver& s, double th, bool ok = false) { if (ok) { s.compareMatricesAndVectors(fn, th); return 0; } return inChild("compare", [&] { s.compareMatricesAndVectors(fn, th); return 0; }); };
  mon::note(w + " comparing the dumped system with itself"); a.s->compareMatricesAndVectors(fn); cmp(*a.s, 0.0, true); 
  { Sys b = build(seed, tr, 0, 0); start(b, tr); mon::note(w + " comparing with the same system built again"); cmp(*b.s, 0.0, true); ev("accepted"); }
  // another system: assembled and dumped values differ by more than the threshold
  int what = tr ? (int)r.irange(1, 4) : (r.chance(0.5) ? 1 : 4); double scale = dense(a.m->s->getK()).cwiseAbs().maxCoeff(), by = scale * 0.01;
  { Sys b = build(seed, tr, what, by); bool any = false; for (auto* e : b.m->els) any |= !e->ids.empty(); if (b.s && any) { start(b, tr);
      double diff = 0; auto df = [&](const MX& p, const MX& q) { diff = std::max(diff, (p - q).cwiseAbs().maxCoeff()); }; df(dense(a.m->s->getK()), dense(b.m->s->getK())); if (tr) { df(dense(a.m->s->getC()), dense(b.m->s->getC())); df(dense(a.m->s->getM()), dense(b.m->s->getM())); } double dv = 0; for (uint32 i = 0; i < a.m->s->getF()->size(); i++) { dv = std::max(dv, std::fabs((*a.m->s->getF())[i] - (*b.m->s->getF())[i])); dv = std::max(dv, std::fabs((*a.m->s->getR())[i] - (*b.m->s->getR())[i])); } diff = std::max(diff, dv);
      if (diff > 0) { check("refuse.other", cmp(*b.s, diff * 0.99) != 0, Str() << w << " a system with a difference of " << diff << " (kind " << what << ") is accepted"); mon::note(w + " comparing with a system within the threshold"); cmp(*b.s, diff * 1.01, true); ev("refused"); } } }
  // a changed, cut or missing file
  std::string text; { std::ifstream in(fn); std::stringstream t; t << in.rdbuf(); text = t.str(); }
  { // change one value of the file
    std::vector<std::pair<size_t, size_t>> vals; size_t p = 0; while ((p = text.find('e', p)) != std::string::npos) { size_t b = text.find_last_of(" \n", p), e = text.find_first_of(" \n", p); b = b == std::string::npos ? 0 : b + 1; vals.push_back({b, e - b}); p = e; }
    if (!vals.empty()) { auto v = r.pick(vals); double x = strtod(text.substr(v.first, v.second).c_str(), 0), th = std::max(1e-9, std::fabs(x) * 1e-6); auto put = [&](double y) { std::ofstream o(fn); o << text.substr(0, v.first) << mon::num(y) << text.substr(v.first + v.second); }; put(x + th * 3 * r.sign()); check("refuse.value", cmp(*a.s, th) != 0, w + " a changed value is accepted"); put(NAN); check("refuse.nan", cmp(*a.s, th) != 0, w + " NaN is accepted"); ev("changed_files"); } }
  { // a vector of the file has another size: the last two lists of numbers are the loads and the reactions
    std::vector<std::string> t; { std::istringstream in(text); std::string x; while (in >> x) t.push_back(x); } size_t n = a.m->s->getR()->size();
    if (n && t.size() > 2 * (n + 1)) { size_t rb = t.size() - n - 1, fb = rb - n - 1; bool inF = r.chance(0.5); size_t at = inF ? fb : rb; int how = (int)r.irange(0, 2); auto q = t;
      if (how == 0) { q[at] = "0"; q.erase(q.begin() + at + 1, q.begin() + at + 1 + n); } else if (how == 1) { q[at] = std::to_string(n + 1); q.insert(q.begin() + at + 1 + n, "0"); } else { q[at] = std::to_string(n - 1); q.erase(q.begin() + at + n); }
      { std::ofstream o(fn); for (auto& x : q) o << x << "\n"; } check("refuse.size", cmp(*a.s, 1e300) != 0, Str() << w << " a file with another size of the " << (inF ? "loads" : "reactions") << " (way " << how << ") is accepted"); ev("resized_vectors");
      { std::ofstream o(fn); for (auto& x : t) o << x << "\n"; } cmp(*a.s, 1e-9 * scale, true); } }
  { size_t n = (size_t)(r.uni() * text.size()); if (r.chance(0.2)) n = text.rfind('\n', text.size() - 2) + 1; if (r.chance(0.1)) n = 0; std::string cut = text.substr(0, n); { std::ofstream o(fn); o << cut; } // an entry may be cut without loss only inside the last number
    size_t last = text.rfind('\n', text.size() - 2); if (n <= last + 1) { check("refuse.cut", cmp(*a.s, 1e9 * (scale + 1)) != 0, Str() << w << " a file cut after " << n << " of " << text.size() << " characters is accepted"); ev("cut_files"); } }
  unlink(fn.c_str()); check("refuse.missing", cmp(*a.s, 1e9 * (scale + 1)) != 0, w + " a missing file is accepted"); ev("missing_files");
}
static void run(mon::Rng& r, uint64_t c) { if (c % 4 < 3) { if (c % 4 == 1 || c % 8 == 2) matrices<math::SparseMatrix, false>(r); else matrices<math::SparseSymMatrix, true>(r); mon::sig(Str() << "m" << r.s); } else systems(r); rmdir(dir().c_str()); mkdir(dir().c_str(), 0700); }
mon::Harness mon::harness() { return {"C22", 2400, 60000, run, nullptr}; }
