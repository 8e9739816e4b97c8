// C14: mesh files are read exactly.
#include "meshfile.h"
using namespace mf;
using mon::check;

static void helpers(Rng& r) {
  // fixed width fields
  std::vector<int> w; std::string line; std::vector<std::string> f; int n = (int)r.irange(1, 12), have = (int)r.irange(0, n);
  for (int i = 0; i < n; i++) w.push_back((int)r.irange(1, 14));
  for (int i = 0; i < have; i++) { std::string s; for (int k = 0; k < w[i]; k++) s += (char)r.irange(' ', '~'); f.push_back(s); line += s; }
  if (have == n && r.chance(0.5)) line += "tail";
  check("ssplit", ssplit(line, w, false) == f, "fixed width fields of \"" + line + "\"");
  if (have == n) check("ssplit.strict", ssplit(line, w, true) == f, "fixed width fields of \"" + line + "\"");
  // delimited fields
  Tokenizer t; t.delimiters.insert(','); if (r.chance(0.4)) t.delimiters.insert(';'); t.tolower = r.chance(0.3);
  std::string tl, dl; std::vector<std::string> exp; int m = (int)r.irange(1, 8);
  for (int i = 0; i < m; i++) {
    std::string core; for (int k = (int)r.irange(0, 6); k > 0; k--) core += (char)r.irange('0', 'Z') == ';' ? 'q' : (char)("abcXYZ019.-+ "[r.irange(0, 12)]);
    size_t a = core.find_first_not_of(" \t"), b = core.find_last_not_of(" \t"); core = a == std::string::npos ? "" : core.substr(a, b - a + 1);
    tl += pad(r, core); if (i + 1 < m) { char d = t.delimiters.size() > 1 && r.chance(0.5) ? ';' : ','; tl += d; dl += d; }
    if (t.tolower) for (auto& c : core) c = (char)::tolower(c);
    exp.push_back(core);
  }
  int cnt = t.tokenize(tl);
  check("tokenize", cnt == m && t.tokens == exp && std::string(t.dtokens.begin(), t.dtokens.end()) == dl, "fields of \"" + tl + "\"");
  double v = r.sign() * r.logrange(1e-30, 1e30); long iv = r.irange(-2000000000, 2000000000);
  t.tokenize(pad(r, std::to_string(iv)) + "," + pad(r, fmt("%.17g", v)));
  check("token.values", t.tokenInt(0) == iv && t.tokenDouble(1) == v, "numeric fields");
  // lines
  std::string text; std::vector<std::string> lines; int k = (int)r.irange(1, 12); const char* e[] = {"\n", "\r\n", "\r"};
  for (int i = 0; i < k; i++) {
    std::string s; for (int q = (int)r.irange(0, 10); q > 0; q--) s += (char)r.irange(1, 255); for (auto& c : s) if (c == '\n' || c == '\r') c = ' ';
    lines.push_back(s); text += s;
    std::string sep = e[r.irange(0, 2)];
    if (i + 1 < k || r.chance(0.5)) text += sep; else if (s.empty()) lines.pop_back();
  }
  // an empty line after a lone CR would make CR LF
  bool ambiguous = false; { std::string again; (void)again; for (size_t i = 0; i + 1 < text.size(); i++) if (text[i] == '\r' && text[i + 1] == '\n') ambiguous = true; }
  if (!ambiguous) {
    std::istringstream is(text); std::vector<std::string> got; std::string l; while (!getLine(is, l).eof()) got.push_back(l);
    check("lines", got == lines, mon::Str() << got.size() << " lines read, " << lines.size() << " in the text"); mon::ev("lines", lines.size());
  }
  std::string a = "aBc dE"; check("iequals", iequals(a, "AbC De") && !iequals(a, "AbC D") && !iequals(a, "AbC Df"), "case insensitive comparison");
  mon::ev("fields", have + m);
}

static void run(Rng& r, uint64_t c) {
  helpers(r);
  MeshData md;
  int reads = (int)r.irange(1, 3);
  std::string w;
  for (int i = 0; i < reads; i++) {
    Gen g(r); bool neu = r.chance(0.25); bool huge = !neu && r.chance(0.004), vast = c % 1500 == 7 && i == 0;
    std::string text = neu ? g.neu(vast) : g.cdb(huge, vast), file = scratchFile(neu ? "neu" : "cdb");
    w += g.traits + "|"; mon::note("file with " + w); mon::sig(g.traits);
    write(file, text);
    bool ok = neu ? readNeuFile(file, md) : readCdbFile(file, md);
    check("accepted", ok, "a correct file is refused");
    std::vector<Mpc*> own = md.mpcs;
    compare(neu ? "neu" : "cdb", md, g.e);
    mon::ev(neu ? "neu_files" : "cdb_files"); if (i) mon::ev("reread"); if (huge) mon::ev("huge_components"); if (vast) mon::ev("vast_meshes");
    // queries on what was read
    auto deg = md.getDegeneratedCells(); std::vector<uint32> ed;
    for (size_t q = 0; q < g.e.cellNodes.size(); q++) { std::set<uint32> s(g.e.cellNodes[q].begin(), g.e.cellNodes[q].end()); if (s.size() < g.e.cellNodes[q].size()) ed.push_back((uint32)q); }
    check("degenerated", deg == ed, "list of degenerated elements");
    for (const char* an : {"MAT", "TYPE", "REAL", "SECT", "CS", "SHAPE", "NONE", "mat"}) {
      std::string at = an; auto it = g.e.attr.find(at); bool have = it != g.e.attr.end() && it->second.size();
      for (int z = 0; z < 2; z++) {
        uint32 av = have && r.chance(0.6) ? it->second[r.next() % it->second.size()] : (uint32)r.irange(0, 9);
        std::vector<uint32> ea; if (have) for (size_t q = 0; q < it->second.size(); q++) if (it->second[q] == av) ea.push_back((uint32)q);
        check("selected", md.getCellsByAttribute(at, av) == ea, "elements with " + at + "=" + std::to_string(av)); mon::ev("selections");
      }
    }
    check("missing", !(neu ? readNeuFile(file + ".absent", md) : readCdbFile(file + ".absent", md)), "a missing file is reported as read");
    for (auto* p : own) delete p; // the next reading forgets them
    md.mpcs.clear();
    unlink(file.c_str());
    if (mon::st().failures.size() > 3) break;
  }
}
mon::Harness mon::harness() { return {"C14", 6000, 80000, run, nullptr}; }
