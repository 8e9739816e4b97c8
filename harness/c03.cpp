// C03: sparse containers behave as the dense matrix they stand for, over whole histories of use.
#include "fe.h"
using namespace fe;
using mon::check;
typedef std::map<std::pair<uint32, uint32>, double> Ent;

struct Model { // pattern + values of one matrix, kept outside the library
  uint32 r = 0, c = 0; bool sym = false; bool compressed = false; bool hasValues = false;
  std::shared_ptr<std::set<std::pair<uint32, uint32>>> pat = std::make_shared<std::set<std::pair<uint32, uint32>>>();
  Ent v;
  std::pair<uint32, uint32> key(uint32 i, uint32 j) const { if (sym && i > j) std::swap(i, j); return std::make_pair(i, j); }
  double at(uint32 i, uint32 j) const { auto it = v.find(key(i, j)); return it == v.end() ? 0.0 : it->second; }
};

static double rndVal(mon::Rng& r) { switch (r.irange(0, 4)) { case 0: return (double)r.irange(-9, 9); case 1: return r.sign() * r.logrange(1e-9, 1e9); default: return r.range(-10, 10); } }

template <class MT> void verifyCommon(MT& m, const Model& md, const std::string& w) {
  check("nRows", m.nRows() == md.r, w); check("nColumns", m.nColumns() == md.c, w);
  check("isCompressed", m.isCompressed() == md.compressed, w);
  if (!md.compressed) return;
  check("nValues", m.nValues() == md.pat->size(), mon::Str() << w << " nValues " << m.nValues() << " expected " << md.pat->size());
  // compressed row structure handed to the equation solver
  uint32* io = m.getIofeirArray(); uint32* col = m.getColumnsArray();
  check("csr.first", io[0] == 1, w);
  check("csr.last", io[md.r] == md.pat->size() + 1, w);
  std::set<std::pair<uint32, uint32>> got;
  for (uint32 i = 0; i < md.r; i++) { check("csr.monotone", io[i] <= io[i + 1], w);
    for (uint32 k = io[i] - 1; k + 1 < io[i + 1]; k++) { got.insert({i + 1, col[k]}); if (k + 2 < io[i + 1]) check("csr.sorted", col[k] < col[k + 1], w); } 
    check("rowcount", m.getSparsityInfo()->nElementsInRow(i + 1) == io[i + 1] - io[i], w); }
  check("csr.pattern", got == *md.pat, w + " stored pattern differs");
  if (!md.hasValues) return;
  double* val = m.getValuesArray();
  for (uint32 i = 0; i < md.r; i++) for (uint32 k = io[i] - 1; k + 1 < io[i + 1]; k++) check("csr.values", val[k] == md.at(i + 1, col[k]), mon::Str() << w << " values array at " << i + 1 << "," << col[k] << ": " << val[k] << " vs " << md.at(i + 1, col[k]));
  for (uint32 i = 1; i <= md.r; i++) for (uint32 j = 1; j <= md.c; j++) {
    double g = m.value(i, j), e = md.at(i, j);
    if (!check("value", g == e, mon::Str() << w << " value(" << i << "," << j << ") = " << g << " expected " << e)) return;
  }
  mon::ev("values_read", md.r * md.c);
  std::ostringstream oss; m.print(oss); m.printInternalData(oss);
}

template <class MT> void products(MT& m, const Model& md, mon::Rng& r, const std::string& w);
static void prodCheck(const std::string& key, const math::dVec& R, const std::vector<double>& r0, const std::vector<double>& exp, const std::vector<double>& mag, const std::string& w) {
  for (uint32 i = 0; i < R.size(); i++) {
    double e = i < exp.size() ? r0[i] + exp[i] : r0[i];
    double tol = i < exp.size() ? 1e-13 * (std::fabs(r0[i]) + mag[i]) + 1e-300 : 0;
    mon::near(key, R[i], e, tol, mon::Str() << w << " component " << i);
  }
  mon::ev("products");
}
static double vecScale = 1; // vectors of one product share a magnitude
static std::vector<double> rndVec(mon::Rng& r, uint32 n) { std::vector<double> v(n); for (auto& x : v) x = r.chance(0.2) ? 0.0 : rndVal(r) * vecScale; return v; }
static void pickScale(mon::Rng& r) { vecScale = r.chance(0.3) ? r.logrange(1e-16, 1e-6) : 1; if (vecScale != 1) mon::ev("products_tiny"); }
static math::dVec toD(const std::vector<double>& v) { math::dVec d((uint32)v.size()); for (size_t i = 0; i < v.size(); i++) d[(uint32)i] = v[i]; return d; }

static void mul(const Model& md, const std::vector<double>& x, double coef, bool tr, std::vector<double>& y, std::vector<double>& mag, double bmax) {
  uint32 n = tr ? md.c : md.r, k = tr ? md.r : md.c;
  y.assign(n, 0); mag.assign(n, 0);
  for (uint32 i = 0; i < n; i++) for (uint32 j = 0; j < k; j++) { double a = tr ? md.at(j + 1, i + 1) : md.at(i + 1, j + 1); y[i] += a * x[j] * coef; mag[i] += std::fabs(a * x[j] * coef); if (std::fabs(x[j]) <= 1e-20) mag[i] += std::fabs(a * coef) * 1e-6; }
}
template <> void products(math::SparseMatrix& m, const Model& md, mon::Rng& r, const std::string& w) {
  if (!md.r || !md.c) return;
  for (int tr = 0; tr < 2; tr++) {
    pickScale(r); auto x = rndVec(r, tr ? md.r : md.c); double coef = r.chance(0.3) ? -1.0 : rndVal(r);
    auto r0 = rndVec(r, (tr ? md.c : md.r) + (uint32)r.irange(0, 3));
    math::dVec V = toD(x), R = toD(r0);
    if (tr) matBTVprod(m, V, coef, R); else matBVprod(m, V, coef, R);
    std::vector<double> y, mag; mul(md, x, coef, tr, y, mag, 0);
    prodCheck(tr ? "prod.BT" : "prod.B", R, r0, y, mag, w);
    for (uint32 i = 0; i < V.size(); i++) check("prod.input", V[i] == x[i], w + " product changed its input");
  }
}
template <> void products(math::SparseSymMatrix& m, const Model& md, mon::Rng& r, const std::string& w) {
  if (!md.r) return;
  pickScale(r); auto x = rndVec(r, md.c); double coef = r.chance(0.3) ? 1.0 : rndVal(r);
  auto r0 = rndVec(r, md.r + (uint32)r.irange(0, 3));
  math::dVec V = toD(x), R = toD(r0);
  matBVprod(m, V, coef, R);
  std::vector<double> y, mag; mul(md, x, coef, false, y, mag, 0);
  prodCheck("prod.sym", R, r0, y, mag, w);
}

template <class MT> MT* make(uint32 r, uint32 c, uint32 mx, bool viaReinit);
template <> math::SparseMatrix* make(uint32 r, uint32 c, uint32 mx, bool re) { if (!re) return new math::SparseMatrix(r, c, mx); auto* m = new math::SparseMatrix; m->reinit(r, c, mx); return m; }
template <> math::SparseSymMatrix* make(uint32 r, uint32 c, uint32 mx, bool re) { if (!re) return new math::SparseSymMatrix(r, mx); auto* m = new math::SparseSymMatrix; m->reinit(r, mx); return m; }
inline void redo(math::SparseMatrix& m, uint32 r, uint32 c, uint32 mx) { m.reinit(r, c, mx); }
inline void redo(math::SparseSymMatrix& m, uint32 r, uint32 c, uint32 mx) { m.reinit(r, mx); }

template <class MT> void history(mon::Rng& r, bool sym) {
  struct Slot { MT* m; Model md; uint32 mx; };
  std::vector<Slot> sl;
  auto fresh = [&](Slot& s, bool have) {
    s.md = Model(); s.md.sym = sym; s.md.r = (uint32)r.irange(r.chance(0.05) ? 0 : 1, 30); s.md.c = sym ? s.md.r : (uint32)r.irange(r.chance(0.05) ? 0 : 1, 30);
    s.mx = (uint32)r.irange(sym ? 2 : 1, 40);
    if (have) { redo(*s.m, s.md.r, s.md.c, s.mx); mon::ev("reinit"); } else s.m = make<MT>(s.md.r, s.md.c, s.mx, r.chance(0.5));
    if (sym) for (uint32 i = 1; i <= s.md.r; i++) s.md.pat->insert({i, i}); // diagonal is always stored
  };
  int nslots = (int)r.irange(1, 3);
  for (int i = 0; i < nslots; i++) { Slot s; fresh(s, false); sl.push_back(s); }
  int ops = (int)r.irange(10, 60);
  std::string trace;
  for (int o = 0; o < ops; o++) {
    int k = (int)r.irange(0, (long)sl.size() - 1);
    Slot& s = sl[k];
    uint32 i = s.md.r ? (uint32)r.irange(1, s.md.r) : 0, j = s.md.c ? (uint32)r.irange(1, s.md.c) : 0;
    int op = (int)r.irange(0, 11);
    std::string w = mon::Str() << "slot " << k << " op " << o << " trace" << trace;
    trace += " " + std::to_string(k) + ":" + std::to_string(op); if (trace.size() > 200) trace.erase(0, 100);
    switch (op) {
      case 0: case 1: case 2:
        if (s.md.compressed || !i || !j) break;
        for (int q = 0; q < 12; q++) {
          i = (uint32)r.irange(1, s.md.r); j = (uint32)r.irange(1, s.md.c);
          auto key = s.md.key(i, j); size_t row = 0; for (auto& p : *s.md.pat) row += p.first == key.first;
          if (!s.md.pat->count(key) && row >= std::min(s.mx, s.md.c)) continue;
          s.m->addEntry(i, j); s.md.pat->insert(key);
        }
        break;
      case 3:
        s.m->compress();
        for (auto& z : sl) if (z.md.pat == s.md.pat) z.md.compressed = true;
        if (!s.md.hasValues) { s.md.hasValues = true; s.md.v.clear(); for (auto& p : *s.md.pat) s.md.v[p] = 0.0; }
        mon::ev("compress");
        break;
      case 4: case 5: case 6:
        if (!s.md.hasValues || s.md.pat->empty()) break;
        for (int q = 0; q < 15; q++) {
          auto it = s.md.pat->begin(); std::advance(it, r.irange(0, (long)s.md.pat->size() - 1));
          uint32 a = it->first, b = it->second; if (sym && r.chance(0.5)) std::swap(a, b);
          double v = rndVal(r);
          if (r.chance(0.3)) { (*s.m)(a, b) = v; s.md.v[*it] = v; } else { s.m->addValue(a, b, v); s.md.v[*it] += v; }
          mon::ev("writes");
        }
        break;
      case 7: if (s.md.hasValues) { s.m->zero(); for (auto& p : s.md.v) p.second = 0.0; } break;
      case 8: if (s.md.hasValues) products(*s.m, s.md, r, w); break;
      case 9: fresh(s, true); break;
      case 10: { // take over somebody else's sparsity, compressed or not
        if (sl.size() < 2) break;
        Slot& t = sl[(k + 1) % sl.size()];
        if (r.chance(0.3)) { delete s.m; s.m = new MT(t.m->getSparsityInfo()); mon::ev("made_from_sparsity"); } else s.m->setSparsityInfo(t.m->getSparsityInfo());
        s.md.pat = t.md.pat; s.md.r = t.md.r; s.md.c = t.md.c; s.mx = t.mx; s.md.v.clear(); s.md.compressed = t.md.compressed; s.md.hasValues = false;
        if (s.md.compressed) { s.md.hasValues = true; for (auto& p : *s.md.pat) s.md.v[p] = 0.0; }
        mon::ev("sparsity_shared");
        break; }
      default: { // from a list of entries
        Model md; md.sym = sym; md.r = (uint32)r.irange(1, 25); md.c = sym ? md.r : (uint32)r.irange(1, 25);
        std::vector<math::SparseEntry> e; int q = (int)r.irange(0, 40);
        for (int z = 0; z < q; z++) { auto key = md.key((uint32)r.irange(1, md.r), (uint32)r.irange(1, md.c)); if (!md.pat->insert(key).second) continue; double v = rndVal(r); md.v[key] = v; e.push_back({key.first, key.second, v}); }
        r.shuffle(e);
        s.m->math::BaseSparseMatrix::reinit(md.r, md.c, e);
        md.compressed = md.hasValues = true; s.md = md; s.mx = 1;
        mon::ev("from_entries");
      }
    }
    if (r.chance(0.4)) verifyCommon(*s.m, s.md, w);
  }
  for (size_t k = 0; k < sl.size(); k++) {
    Slot& s = sl[k];
    std::string w = mon::Str() << "final slot " << k << " trace" << trace;
    verifyCommon(*s.m, s.md, w);
    if (!s.md.hasValues) continue;
    products(*s.m, s.md, r, w);
    // a freshly built equal matrix compares equal, a perturbed or re-patterned one does not
    std::vector<math::SparseEntry> e; for (auto& p : *s.md.pat) e.push_back({p.first, p.second, s.md.at(p.first, p.second)});
    MT c; c.math::BaseSparseMatrix::reinit(s.md.r, s.md.c, e);
    check("compare.equal", s.m->compare(c, 1e-12) && c.compare(*s.m, 1e-12), w);
    if (e.size()) {
      auto e2 = e; auto& x = e2[r.irange(0, (long)e2.size() - 1)]; double d = r.sign() * r.logrange(1e-3, 10) * (std::fabs(x.v) + 1); x.v += d;
      MT c2; c2.math::BaseSparseMatrix::reinit(s.md.r, s.md.c, e2);
      check("compare.value", !s.m->compare(c2, std::fabs(d) * 0.4), w); check("compare.tolerance", s.m->compare(c2, std::fabs(d) * 1.5), w);
      auto e3 = e; e3.erase(e3.begin() + r.irange(0, (long)e3.size() - 1)); MT c3; c3.math::BaseSparseMatrix::reinit(s.md.r, s.md.c, e3);
      check("compare.pattern", !s.m->compare(c3, 1e30), w);
      MT c4; c4.math::BaseSparseMatrix::reinit(s.md.r + 1, sym ? s.md.c + 1 : s.md.c, e); check("compare.shape", !s.m->compare(c4, 1e30), w);
      mon::ev("compares", 4);
    }
  }
  mon::sig(mon::Str() << sym << trace);
  mon::sample(mon::Str() << (sym ? "symmetric" : "rectangular") << " history of " << ops << " operations on " << sl.size() << " matrices, last ones (slot:op)" << trace);
  for (auto& s : sl) delete s.m;
}

// a sparsity object of its own, used again for another pattern, with matrices made from it
template <class MT> void sparsity(mon::Rng& r, bool sym) {
  auto si = std::make_shared<math::SparsityInfo>(); std::string w = mon::Str() << "sparsity object, symmetric " << sym;
  int rounds = (int)r.irange(1, 3);
  for (int q = 0; q < rounds; q++) {
    Model md; md.sym = sym; md.r = (uint32)r.irange(1, 20); md.c = sym ? md.r : (uint32)r.irange(1, 20); uint32 mx = md.c;
    if (q == 0 && r.chance(0.3)) si = std::make_shared<math::SparsityInfo>(md.r, md.c, mx); else si->reinit(md.r, md.c, mx);
    check("sparsity.open", !si->isCompressed(), w);
    if (sym) for (uint32 i = 1; i <= md.r; i++) { si->addEntry(i, i); md.pat->insert({i, i}); }
    for (int k = (int)r.irange(0, 50); k > 0; k--) { uint32 i = (uint32)r.irange(1, md.r), j = (uint32)r.irange(1, md.c); if (sym && i > j) std::swap(i, j); si->addEntry(i, j); md.pat->insert({i, j}); }
    bool before = r.chance(0.5); if (before) si->compress();
    {
      MT a(si), b(si); a.compress(); b.compress(); check("sparsity.closed", si->isCompressed() && a.isCompressed() && b.isCompressed(), w);
      std::set<uint32> idx; uint32 k = 0;
      for (auto& p : *md.pat) { uint32 g = si->getIndex(p.first, p.second); check("sparsity.index", g == k++ && idx.insert(g).second, mon::Str() << w << " place of (" << p.first << "," << p.second << ") is " << g); }
      check("sparsity.index", a.nValues() == md.pat->size(), w);
      Model ma = md, mb = md; ma.compressed = ma.hasValues = mb.compressed = mb.hasValues = true;
      for (auto& p : *md.pat) { double v = rndVal(r), u = rndVal(r); a.addValue(p.first, p.second, v); ma.v[p] = v; mb.v[p] = u; b(p.first, p.second) = u; }
      verifyCommon(a, ma, w + " first"); verifyCommon(b, mb, w + " second");
    }
    mon::ev("sparsity_objects");
  }
  mon::sig(mon::Str() << "si" << sym << rounds);
}

template <uint16 nb> void blocks(mon::Rng& r) {
  std::vector<uint32> n; uint32 tot = 0;
  for (int i = 0; i < nb; i++) { n.push_back((uint32)r.irange(r.chance(0.2) ? 0 : 1, 9)); tot += n.back(); }
  if (!tot) { n[0] = 2; tot = 2; }
  math::BlockSparseSymMatrix<nb>* B;
  switch (nb) { case 1: B = new math::BlockSparseSymMatrix<nb>({n[0]}); break; case 2: B = new math::BlockSparseSymMatrix<nb>({n[0], n[1 % nb]}); break;
    case 3: B = new math::BlockSparseSymMatrix<nb>({n[0], n[1 % nb], n[2 % nb]}); break; default: B = new math::BlockSparseSymMatrix<nb>({n[0], n[1 % nb], n[2 % nb], n[3 % nb]}, 30); }
  check("block.rows", B->nRows() == tot, mon::Str() << "block rows " << B->nRows() << " expected " << tot);
  math::BlockSparseSymMatrix<nb>* early = r.chance(0.5) ? new math::BlockSparseSymMatrix<nb>(B) : nullptr;
  std::set<std::pair<uint32, uint32>> pat;
  int q = (int)r.irange(0, 60);
  for (int i = 0; i < q; i++) { uint32 a = (uint32)r.irange(1, tot), b = (uint32)r.irange(1, tot); B->addEntry(a, b); pat.insert({std::min(a, b), std::max(a, b)}); }
  check("block.uncompressed", !B->isCompressed(), "");
  B->compress(); if (early) early->compress();
  check("block.compressed", B->isCompressed(), "");
  math::BlockSparseSymMatrix<nb>* late = new math::BlockSparseSymMatrix<nb>(B);
  math::BlockSparseSymMatrix<nb>* ms[3] = {B, early, late};
  Ent v[3];
  for (int k = 0; k < 3; k++) if (ms[k]) {
    check("block.rows", ms[k]->nRows() == tot, mon::Str() << "copy of sparsity reports " << ms[k]->nRows() << " rows expected " << tot);
    check("block.compressed", ms[k]->isCompressed(), "");
    ms[k]->zero();
  }
  for (int i = 0; i < 80 && pat.size(); i++) { int k = (int)r.irange(0, 2); if (!ms[k]) continue; auto it = pat.begin(); std::advance(it, r.irange(0, (long)pat.size() - 1)); double x = rndVal(r); bool sw = r.chance(0.5);
    ms[k]->addValue(sw ? it->second : it->first, sw ? it->first : it->second, x); v[k][*it] += x; if (r.chance(0.02)) { ms[k]->zero(); v[k].clear(); } }
  std::vector<uint32> off(nb + 1, 0); for (int i = 0; i < nb; i++) off[i + 1] = off[i] + n[i];
  for (int k = 0; k < 3; k++) if (ms[k]) for (uint16 bi = 1; bi <= nb; bi++) for (uint16 bj = bi; bj <= nb; bj++) {
    if (bi == bj) check("block.size", ms[k]->block(bi)->nRows() == n[bi - 1], "diagonal block size");
    else { check("block.size", ms[k]->block(bi, bj)->nRows() == n[bi - 1] && ms[k]->block(bi, bj)->nColumns() == n[bj - 1], "off-diagonal block size"); check("block.alias", ms[k]->block(bi, bj) == ms[k]->block(bj, bi), "block(i,j) is block(j,i)"); }
    for (uint32 a = 1; a <= n[bi - 1]; a++) for (uint32 b = (bi == bj ? a : 1); b <= n[bj - 1]; b++) {
      double g = bi == bj ? ms[k]->block(bi)->value(a, b) : ms[k]->block(bi, bj)->value(a, b);
      auto it = v[k].find({off[bi - 1] + a, off[bj - 1] + b}); double e = it == v[k].end() ? 0.0 : it->second;
      check("block.value", g == e, mon::Str() << "nb " << nb << " matrix " << k << " block " << bi << "," << bj << " entry " << a << "," << b << " = " << g << " expected " << e);
      mon::ev("block_values_read");
    }
  }
  delete B; delete early; delete late;
  mon::sig(mon::Str() << "blk" << nb << "/" << tot << "/" << pat.size());
}
// indices beyond 16 bits
static void wide(mon::Rng& r) {
  uint32 n = 70000; math::SparseMatrix m(n, n, 4); std::map<std::pair<uint32, uint32>, double> v;
  for (int i = 0; i < 500; i++) { uint32 a = (uint32)r.irange(1, n), b = r.chance(0.5) ? a : (uint32)r.irange(1, n); v[{a, b}] = r.range(1, 2); m.addEntry(a, b); }
  m.compress(); for (auto& p : v) m.addValue(p.first.first, p.first.second, p.second);
  for (auto& p : v) check("wide.value", m.value(p.first.first, p.first.second) == p.second, "wide matrix");
  math::dVec x(n, 1.0), y(n); matBVprod(m, x, 2.0, y);
  std::map<uint32, double> row; for (auto& p : v) row[p.first.first] += 2 * p.second;
  double tot = 0, te = 0; for (uint32 i = 0; i < n; i++) tot += y[i]; for (auto& p : row) { te += p.second; mon::near("wide.prod", y[p.first - 1], p.second, 1e-12, "wide"); }
  mon::near("wide.total", tot, te, 1e-9, "wide");
  mon::sig("wide");
}

mon::Harness mon::harness() {
  return {"C03", 8000, 200000, [](mon::Rng& r, uint64_t c) {
    if (c == 1) return wide(r);
    if (c % 32 == 9) return r.chance(0.5) ? sparsity<math::SparseMatrix>(r, false) : sparsity<math::SparseSymMatrix>(r, true);
    switch (c % 8) {
      case 0: case 1: case 2: return history<math::SparseMatrix>(r, false);
      case 3: case 4: case 5: return history<math::SparseSymMatrix>(r, true);
      case 6: return r.chance(0.5) ? blocks<2>(r) : blocks<1>(r);
      default: return r.chance(0.5) ? blocks<3>(r) : blocks<4>(r);
    }
  }, nullptr};
}
