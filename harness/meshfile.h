// Generator of cdb and neu files together with the mesh they describe (independent of the readers).
#pragma once
#include "mon.h"
#include "FEReaders.h"
#include <unistd.h>
namespace mf {
using mon::Rng;

struct Term { uint32 node; int dof; double coef; };
struct Eq { double b; std::vector<Term> terms; };
struct Bc { uint32 node; int dof; double value; };
struct Comp { std::string name; bool nodes; std::vector<uint32> list; };
struct Expect {
  std::vector<uint32> nodes; std::vector<std::array<double, 3>> pos;
  std::vector<uint32> cells; std::vector<std::vector<uint32>> cellNodes;
  std::map<std::string, std::vector<uint32>> attr;
  std::vector<Bc> fixes, loads; std::vector<Eq> eqs; std::vector<Comp> comps;
};

inline std::string fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string anyCase(Rng& r, std::string s, double p = 0.5) {
  if (r.chance(p)) return s;
  int m = (int)r.irange(0, 1);
  for (auto& c : s) c = m == 0 ? (char)::tolower(c) : (r.chance(0.5) ? (char)::tolower(c) : (char)::toupper(c));
  return s;
}
inline std::string pad(Rng& r, const std::string& s) {
  std::string a(r.chance(0.4) ? r.irange(1, 6) : 0, r.chance(0.1) ? '\t' : ' '), b(r.chance(0.4) ? r.irange(1, 6) : 0, r.chance(0.1) ? '\t' : ' ');
  return a + s + b;
}
inline std::string numText(Rng& r, double v) {
  switch (r.irange(0, 4)) {
    case 0: return fmt("%.8f", v); case 1: return fmt("%.12E", v); case 2: return fmt("%.6e", v); case 3: return fmt("%g", v);
    default: return fmt("%d.", (int)r.irange(-5000, 5000));
  }
}
// decimal exponent with at least three digits, as Ansys writes in e21.13e3
inline std::string expo3(const std::string& s) {
  size_t e = s.find('E'); if (e == std::string::npos) return s;
  std::string m = s.substr(0, e + 2), d = s.substr(e + 2);
  while (d.size() < 3) d = "0" + d;
  return m + d;
}
inline std::string right(const std::string& s, size_t w) { return s.size() >= w ? s : std::string(w - s.size(), ' ') + s; }

static const char* dofLabels[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"};
static const int dofTypes[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};

struct Gen {
  Rng& r; Expect e; std::vector<std::string> L; uint32 maxNum; bool big; std::set<std::string> names; std::string traits;
  Gen(Rng& rr, bool small = false) : r(rr) {
    static const uint32 mx[] = {50, 2000, 99999, 999999999};
    maxNum = small ? 60 : mx[r.irange(0, 3)]; big = !small;
  }
  uint32 num() { return (uint32)r.irange(1, maxNum); }
  double val() { return r.chance(0.15) ? 0.0 : r.sign() * r.logrange(1e-12, 1e12); }
  void noise() {
    if (!r.chance(0.5)) return;
    for (int k = (int)r.irange(1, 4); k > 0; k--) {
      switch (r.irange(0, 15)) {
        case 0: L.push_back("/COM,ANSYS RELEASE 17.1"); break;
        case 1: L.push_back(r.chance(0.5) ? "!D,1,UX,5.0" : "  !F,1,FX,5.0"); break;
        case 2: L.push_back(""); break;
        case 3: L.push_back(std::string((size_t)r.irange(1, 9), ' ')); break;
        case 4: L.push_back(fmt("ET, %8d,%3d", (int)r.irange(1, 9), (int)r.irange(1, 200))); break;
        case 5: L.push_back(fmt("ET,MID,%3d", (int)r.irange(1, 200))); break;
        case 6: L.push_back(fmt("TYPE, %8d", (int)r.irange(1, 9))); break;
        case 7: L.push_back(fmt("*SET,PAR%d ,  %.9f    ", (int)r.irange(1, 9), r.range(-9, 9))); break;
        case 8: L.push_back("*SET,NAME,'text'"); break;
        case 9: L.push_back("KEYOP,        2, 8,        2"); break;
        case 10: L.push_back("NUMOFF,NODE,      341"); break;
        case 11: L.push_back("MPDATA,R5.0, 1,EX  , 1, 1,  20000.0000    ,"); break;
        case 12: L.push_back(fmt("D,ALL,UX,%g", val())); break;
        case 13: L.push_back(fmt("F,%u,FX,%%TAB%%", num())); break;
        case 14: L.push_back("DOF,DELETE"); break;
        default: L.push_back("EXTOPT,ATTR,      0,      0,      0"); break;
      }
    }
  }
  std::string dofLabel(int d) { return r.chance(0.3) ? anyCase(r, dofLabels[d]) : dofLabels[d]; }
  std::string rowFormat(int in, int w) {
    std::string f = fmt("(%d%c%d)", in, r.chance(0.2) ? 'I' : 'i', w);
    return r.chance(0.2) ? "  " + f + " " : f;
  }
  void nblock(int n) {
    struct F { int in, iw, fn, fw, prec; bool e3; };
    static const F fs[] = {{3, 9, 6, 20, 13, false}, {1, 9, 3, 20, 9, true}, {3, 9, 6, 21, 13, true}, {3, 10, 6, 22, 14, false}, {2, 12, 3, 25, 16, true}};
    F f = fs[r.irange(0, 4)];
    traits += fmt("n%d.", f.fw);
    L.push_back(anyCase(r, "NBLOCK") + fmt(",%d,%s,%10d,%10d", f.fn, anyCase(r, "SOLID").c_str(), n, n));
    std::string ff = fmt("(%di%d,%de%d.%d%s)", f.in, f.iw, f.fn, f.fw, f.prec, f.e3 ? "e3" : "");
    if (r.chance(0.2)) for (auto& c : ff) c = (char)::toupper(c);
    L.push_back(r.chance(0.2) ? " " + ff + " " : ff);
    int plane = (int)r.irange(0, 3);
    for (int i = 0; i < n; i++) {
      uint32 no = num();
      std::array<double, 3> p{{0, 0, 0}};
      int nc = (int)r.irange(0, 5) == 0 ? (int)r.irange(0, 3) : (plane == 0 ? 2 : 3);
      std::string s = right(std::to_string(no), f.iw);
      for (int k = 1; k < f.in; k++) s += right(std::to_string(r.chance(0.2) ? r.irange(1, 99) : 0), f.iw);
      for (int k = 0; k < nc; k++) {
        // room for the sign and exponent of the format
        double v = val(); std::string t = fmt("%.*E", f.prec, v); if (f.e3) t = expo3(t);
        if ((int)t.size() > f.fw) { v = std::fabs(v); t = fmt("%.*E", f.prec, v); if (f.e3) t = expo3(t); }
        p[k] = strtod(t.c_str(), 0); s += right(t, f.fw);
      }
      // nodal rotations may follow complete coordinates
      if (nc == 3 && f.fn == 6 && r.chance(0.1)) for (int k = (int)r.irange(1, 3); k > 0; k--) { std::string t = fmt("%.*E", f.prec, r.range(0, 90)); if (f.e3) t = expo3(t); s += right(t, f.fw); }
      L.push_back(s); e.nodes.push_back(no); e.pos.push_back(p); if (r.chance(0.02)) L.push_back("");
    }
    static const char* ends[] = {"N,R5.3,LOC,       -1,", "-1", "       -1"};
    L.push_back(ends[r.irange(0, 2)]);
  }
  uint32 cellNode() { return e.nodes.empty() || r.chance(0.1) ? num() : e.nodes[r.next() % e.nodes.size()]; }
  // material, type, ... numbers: mostly small, now and then beyond one or two bytes
  uint32 att(long lo, long hi) { return (uint32)(r.chance(0.05) ? r.irange(0, 3) == 0 ? 65536 * r.irange(1, 3) + r.irange(lo, hi) : 256 * r.irange(1, 300) + r.irange(lo, hi) : r.irange(lo, hi)); }
  void eblock(int n) {
    bool solid = r.chance(0.6); int w = r.chance(0.7) ? 9 : (int)r.irange(9, 12);
    int in = solid ? 19 : (int)r.irange(6, 15);
    traits += solid ? "S" : "s";
    L.push_back(anyCase(r, "EBLOCK") + (solid ? fmt(",%d,%s,%10d,%10d", in, anyCase(r, "SOLID").c_str(), n, n) : r.chance(0.5) ? fmt(",%d,,,%d", in, n) : fmt(",%d", in)));
    L.push_back(rowFormat(in, w));
    int fixedN = (int)r.irange(1, solid ? 8 : in - 5);
    for (int i = 0; i < n; i++) {
      uint32 mat = att(1, 9), type = att(1, 4), real = att(1, 9), sect = att(1, 9), cs = att(0, 12), shape = att(0, 7), no = num();
      int nn = r.chance(0.8) ? fixedN : (int)r.irange(1, solid ? 8 : in - 5);
      std::vector<uint32> nd; for (int k = 0; k < nn; k++) nd.push_back(k > 0 && r.chance(0.1) ? nd[k - 1] : cellNode());
      std::vector<uint32> f;
      if (solid) f = {mat, type, real, sect, cs, (uint32)r.irange(0, 1), (uint32)r.irange(0, 99), shape, (uint32)nn, (uint32)r.irange(0, 5), no};
      else { f = {no, type, real, mat, cs}; sect = 0; shape = 0; }
      for (auto x : nd) f.push_back(x);
      std::string s; for (auto x : f) s += right(std::to_string(x), w);
      L.push_back(s); if (r.chance(0.02)) L.push_back("");
      e.cells.push_back(no); e.cellNodes.push_back(nd);
      e.attr["MAT"].push_back(mat); e.attr["TYPE"].push_back(type); e.attr["REAL"].push_back(real); e.attr["SECT"].push_back(sect); e.attr["CS"].push_back(cs); e.attr["SHAPE"].push_back(shape);
    }
    L.push_back(r.chance(0.5) ? "       -1" : "-1");
  }
  uint32 bcNode() { return cellNode(); }
  void fix() {
    int d = (int)r.irange(0, 7); Bc b{bcNode(), dofTypes[d], 0}; std::string v = numText(r, val()); b.value = strtod(v.c_str(), 0);
    L.push_back(anyCase(r, "D") + "," + pad(r, std::to_string(b.node)) + "," + pad(r, dofLabel(d)) + "," + pad(r, v) + (r.chance(0.4) ? ",  0.00000000" : ""));
    e.fixes.push_back(b); traits += "D";
  }
  void load() {
    static const char* ll[] = {"HEAT", "FX", "FY", "FZ"}; static const int lt[] = {Dof::TEMP, Dof::UX, Dof::UY, Dof::UZ};
    Bc b{bcNode(), 0, 0}; std::string lab;
    if (r.chance(0.7)) { int k = (int)r.irange(0, 3); lab = anyCase(r, ll[k]); b.dof = lt[k]; } else { int k = (int)r.irange(0, 7); lab = dofLabel(k); b.dof = dofTypes[k]; }
    std::string v = numText(r, val()); b.value = strtod(v.c_str(), 0);
    L.push_back(anyCase(r, "F") + "," + pad(r, std::to_string(b.node)) + "," + pad(r, lab) + "," + pad(r, v) + (r.chance(0.4) ? ",  0.00000000" : ""));
    e.loads.push_back(b); traits += "F";
  }
  void ce() {
    int n = (int)r.irange(1, 9); Eq q; std::string b = numText(r, r.chance(0.5) ? 0.0 : val()); q.b = strtod(b.c_str(), 0);
    L.push_back(anyCase(r, "CE") + ",R5.0,DEFI," + pad(r, std::to_string(n)) + "," + pad(r, "1") + "," + pad(r, b));
    for (int i = 0; i < n; i += 2) {
      std::string s = "CE,R5.0,NODE";
      for (int k = i; k < std::min(n, i + 2); k++) {
        int d = (int)r.irange(0, 7); std::string c = numText(r, val()); Term t{bcNode(), dofTypes[d], strtod(c.c_str(), 0)};
        s += "," + pad(r, std::to_string(t.node)) + "," + pad(r, dofLabel(d)) + "," + pad(r, c); q.terms.push_back(t);
      }
      L.push_back(s);
    }
    traits += n % 2 ? "C" : "c";
    e.eqs.push_back(q);
  }
  void comp(bool huge = false) {
    Comp c; bool hidden = r.chance(0.15); c.nodes = r.chance(0.6);
    do c.name = (hidden ? "_" : "") + std::string(r.chance(0.5) ? "SIDE_" : "comp") + std::to_string(r.irange(1, 999)); while (!names.insert(c.name).second);
    int in = (int)r.irange(1, 10), w = (int)r.irange(10, 12);
    std::vector<long> recs; long cur = r.irange(1, 50); int groups = huge ? r.chance(0.5) ? 3 : (int)r.irange(65000, 70000) : (int)r.irange(1, 40);
    for (int g = 0; g < groups && cur < 999999000; g++) {
      recs.push_back(cur); c.list.push_back((uint32)cur);
      if ((!huge && r.chance(0.4)) || (huge && g == 0)) { long to = cur + (huge ? r.irange(65500, 140000) : r.irange(r.chance(0.1) ? 0 : 1, 60)); if (to > cur || true) { for (long x = cur + 1; x <= to; x++) c.list.push_back((uint32)x); recs.push_back(-to); cur = to; } }
      cur += r.irange(1, big && r.chance(0.1) ? 500000 : 20);
    }
    L.push_back(anyCase(r, "CMBLOCK") + "," + pad(r, c.name) + "," + pad(r, anyCase(r, c.nodes ? "NODE" : "ELEM")) + "," + fmt("%8d", (int)recs.size()) + (r.chance(0.4) ? "  ! users node component definition" : ""));
    L.push_back(rowFormat(in, w));
    std::string s; int k = 0;
    for (auto x : recs) { s += right(std::to_string(x), w); if (++k == in) { L.push_back(s); s.clear(); k = 0; } }
    if (k) L.push_back(s);
    traits += hidden ? "h" : huge ? "H" : "m";
    if (!hidden) e.comps.push_back(c);
  }
  std::string cdb(bool huge = false, bool vast = false) {
    noise();
    int blocks = (int)r.irange(1, 5);
    for (int b = 0; b < blocks; b++) {
      if (r.chance(0.6)) { nblock((int)r.irange(1, 25)); noise(); }
      if (r.chance(0.6)) { eblock((int)r.irange(1, 15)); noise(); }
      if (r.chance(0.4)) { comp(); noise(); }
      for (int k = (int)r.irange(0, 4); k > 0; k--) { switch (r.irange(0, 2)) { case 0: fix(); break; case 1: load(); break; default: ce(); } noise(); }
    }
    if (vast) { nblock((int)r.irange(66000, 70000)); eblock((int)r.irange(66000, 70000)); noise(); }
    if (huge) { comp(true); noise(); }
    if (r.chance(0.5)) L.push_back("FINISH");
    static const char* eols[] = {"\n", "\r\n", "\r"}; std::string eol = eols[r.irange(0, 2)], s;
    traits += eol.size() == 2 ? "x" : eol[0] == '\n' ? "u" : "r";
    for (size_t i = 0; i < L.size(); i++) { s += L[i]; if (i + 1 < L.size() || r.chance(0.7)) s += eol; }
    return s;
  }
  std::string neu(bool vast = false) {
    static const char* sep[] = {" ", "   ", "\t"}; std::string sp = sep[r.irange(0, 2)], s; auto eol = r.chance(0.3) ? "\r\n" : "\n";
    int n = (int)r.irange(0, 60), m = (int)r.irange(0, 50), k = (int)r.irange(0, 40); if (vast) { n = (int)r.irange(66000, 70000); m = (int)r.irange(66000, 70000); k = (int)r.irange(66000, 70000); }
    s += std::to_string(n) + eol;
    for (int i = 0; i < n; i++) {
      std::array<double, 3> p; for (int c = 0; c < 3; c++) { std::string t = numText(r, val()); p[c] = strtod(t.c_str(), 0); s += sp + t; }
      s += eol; e.nodes.push_back(i + 1); e.pos.push_back(p);
    }
    s += std::to_string(m) + eol;
    for (int i = 0; i < m; i++) {
      uint32 mat = att(1, 9); s += sp + std::to_string(mat); std::vector<uint32> nd;
      for (int c = 0; c < 4; c++) { nd.push_back((uint32)r.irange(1, n > 0 ? n : 9)); s += sp + std::to_string(nd.back()); }
      s += eol; e.cells.push_back(i + 1); e.cellNodes.push_back(nd); e.attr["MAT"].push_back(mat);
    }
    s += std::to_string(k) + eol;
    for (int i = 0; i < k; i++) {
      std::string nm = std::to_string(r.irange(1, 5)); s += sp + nm; Comp* c = 0;
      for (auto& x : e.comps) if (x.name == nm) c = &x;
      if (!c) { e.comps.push_back(Comp{nm, false, {}}); c = &e.comps.back(); }
      for (int q = 0; q < 3; q++) { c->list.push_back((uint32)r.irange(1, n > 0 ? n : 9)); s += sp + std::to_string(c->list.back()); }
      s += (i + 1 == k && r.chance(0.3)) ? "" : eol;
    }
    traits += fmt("neu%d", (n > 0) + 2 * (m > 0) + 4 * (k > 0));
    return s;
  }
};

inline std::string scratchFile(const std::string& suffix) { return fmt("mesh_%d.%s", (int)getpid(), suffix.c_str()); }
inline void write(const std::string& f, const std::string& s) { FILE* p = fopen(f.c_str(), "wb"); if (p) { fwrite(s.data(), 1, s.size(), p); fclose(p); } }

inline void compare(const std::string& k, MeshData& m, const Expect& e) {
  using mon::check; using mon::Str;
  check(k + ".nodes.count", m.nodesNumbers.size() == e.nodes.size() && m.nodesPos.size() == e.nodes.size(), Str() << m.nodesNumbers.size() << " nodes, the file has " << e.nodes.size());
  for (size_t i = 0; i < std::min(m.nodesPos.size(), std::min(m.nodesNumbers.size(), e.nodes.size())); i++) {
    if (!check(k + ".nodes.number", m.nodesNumbers[i] == e.nodes[i], Str() << "node " << i << " number " << m.nodesNumbers[i] << " in the file " << e.nodes[i])) break;
    for (int c = 0; c < 3; c++) check(k + ".nodes.position", m.nodesPos[i][c] == e.pos[i][c], Str() << "node " << e.nodes[i] << " coordinate " << c << " " << mon::num(m.nodesPos[i][c]) << " in the file " << mon::num(e.pos[i][c]));
    mon::ev("node_records");
  }
  check(k + ".cells.count", m.cellNumbers.size() == e.cells.size() && m.cellNodes.size() == e.cells.size(), Str() << m.cellNumbers.size() << " elements, the file has " << e.cells.size());
  for (size_t i = 0; i < std::min(m.cellNodes.size(), std::min(m.cellNumbers.size(), e.cells.size())); i++) {
    check(k + ".cells.number", m.cellNumbers[i] == e.cells[i], Str() << "element " << i << " number " << m.cellNumbers[i] << " in the file " << e.cells[i]);
    check(k + ".cells.nodes", m.cellNodes[i] == e.cellNodes[i], Str() << "nodes of element " << e.cells[i]);
    mon::ev("element_records");
  }
  for (auto& a : e.attr) {
    auto it = m.cellIntData.find(a.first);
    if (check(k + ".cells.attribute", it != m.cellIntData.end(), "no attribute " + a.first)) check(k + ".cells.attribute", it->second == a.second, "values of attribute " + a.first);
    mon::ev("attributes");
  }
  for (auto& a : m.cellIntData) check(k + ".cells.attribute.size", a.second.size() == e.cells.size(), "attribute " + a.first + " has another number of values than elements");
  check(k + ".fixes.count", m.fixBcs.size() == e.fixes.size(), Str() << m.fixBcs.size() << " prescribed values, the file has " << e.fixes.size());
  for (size_t i = 0; i < std::min(m.fixBcs.size(), e.fixes.size()); i++) {
    check(k + ".fixes", (uint32)m.fixBcs[i].node == e.fixes[i].node && (int)m.fixBcs[i].node_dof == e.fixes[i].dof && m.fixBcs[i].value == e.fixes[i].value, Str() << "prescribed value " << i << " of node " << e.fixes[i].node);
    mon::ev("fix_records");
  }
  check(k + ".loads.count", m.loadBcs.size() == e.loads.size(), Str() << m.loadBcs.size() << " loads, the file has " << e.loads.size());
  for (size_t i = 0; i < std::min(m.loadBcs.size(), e.loads.size()); i++) {
    check(k + ".loads", (uint32)m.loadBcs[i].node == e.loads[i].node && (int)m.loadBcs[i].node_dof == e.loads[i].dof && m.loadBcs[i].value == e.loads[i].value, Str() << "load " << i << " of node " << e.loads[i].node);
    mon::ev("load_records");
  }
  check(k + ".equations.count", m.mpcs.size() == e.eqs.size(), Str() << m.mpcs.size() << " constraint equations, the file has " << e.eqs.size());
  for (size_t i = 0; i < std::min(m.mpcs.size(), e.eqs.size()); i++) {
    check(k + ".equations.rhs", m.mpcs[i]->b == e.eqs[i].b, Str() << "right-hand side of equation " << i);
    if (check(k + ".equations.terms", m.mpcs[i]->eq.size() == e.eqs[i].terms.size(), Str() << "equation " << i << " has " << m.mpcs[i]->eq.size() << " terms, in the file " << e.eqs[i].terms.size())) {
      size_t j = 0;
      for (auto& t : m.mpcs[i]->eq) { auto& x = e.eqs[i].terms[j++]; check(k + ".equations.term", (uint32)t.node == x.node && (int)t.node_dof == x.dof && t.coef == x.coef, Str() << "equation " << i << " term " << j); }
    }
    mon::ev("equation_records");
  }
  check(k + ".components.count", m.feComps.size() == e.comps.size(), Str() << m.feComps.size() << " components, the file has " << e.comps.size());
  for (auto& c : e.comps) {
    auto it = m.feComps.find(c.name);
    if (!check(k + ".components", it != m.feComps.end(), "no component " + c.name)) continue;
    check(k + ".components.kind", it->second.name == c.name && it->second.type == (c.nodes ? FEComponent::NODES : FEComponent::ELEMENTS), "name or kind of component " + c.name);
    check(k + ".components.list", it->second.list == c.list, mon::Str() << "component " << c.name << " has " << it->second.list.size() << " items, in the file " << c.list.size());
    mon::ev("component_records");
  }
}
inline void freeMpcs(MeshData& m) { for (auto* p : m.mpcs) delete p; m.mpcs.clear(); }
} // namespace mf
