// C16: damaged mesh files end in an orderly way.
#include "meshfile.h"
#include <sys/wait.h>
#include <sys/resource.h>
using namespace mf;
using mon::check;

static std::string damage(Rng& r, std::string s, bool neu) {
  auto split = [&](const std::string& t) { std::vector<std::string> v; std::string cur; for (char c : t) { cur += c; if (c == '\n' || c == '\r') { v.push_back(cur); cur.clear(); } } if (!cur.empty()) v.push_back(cur); return v; };
  auto join = [&](const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x; return o; };
  int k = (int)r.irange(1, r.chance(0.3) ? 6 : 2);
  for (; k > 0 && !s.empty(); k--) {
    switch (r.irange(0, 15)) {
      case 0: s.resize(r.next() % s.size()); break;                                   // truncated
      case 1: s.erase(r.next() % s.size(), r.irange(1, 30)); break;                    // hole
      case 2: s[r.next() % s.size()] = (char)r.irange(0, 255); break;                  // any byte
      case 3: s[r.next() % s.size()] = ",-+.()eE!/ \t\n\r09NiCDF"[r.irange(0, 20)]; break; // significant byte
      case 4: { std::string ins[] = {",", "-", "-1", "\n", "\n\n", " ", "         ", "999", "0", "abc", "1e999", "99999999999", "NBLOCK\n", "EBLOCK\n", "CMBLOCK\n", "CE\n", "D\n", "F,\n", "D,1\n", "CE,R5.0,DEFI\n", "CMBLOCK,A\n", "CMBLOCK,A,NODE\n", "EBLOCK,19\n", "*SET\n", "ET\n", "TYPE\n"}; s.insert(r.next() % s.size(), ins[r.irange(0, 25)]); break; }
      case 5: case 6: { auto v = split(s); if (v.empty()) break; v.erase(v.begin() + r.next() % v.size()); s = join(v); break; } // line lost
      case 7: { auto v = split(s); if (v.size() < 2) break; std::swap(v[r.next() % v.size()], v[r.next() % v.size()]); s = join(v); break; }
      case 8: { auto v = split(s); if (v.empty()) break; size_t i = r.next() % v.size(); v.insert(v.begin() + i, v[r.next() % v.size()]); s = join(v); break; }
      case 9: case 10: { auto v = split(s); if (v.empty()) break; auto& l = v[r.next() % v.size()]; l.resize(r.next() % l.size()); l += "\n"; s = join(v); break; } // line cut
      case 11: { auto v = split(s); if (v.empty()) break; v[r.next() % v.size()] = r.chance(0.5) ? "\n" : "     \n"; s = join(v); break; }
      case 12: { // a field emptied or doubled
        std::vector<size_t> cm; for (size_t i = 0; i < s.size(); i++) if (s[i] == ',') cm.push_back(i); if (cm.empty()) break; size_t i = cm[r.next() % cm.size()];
        size_t e = s.find_first_of(",\n\r", i + 1); if (e == std::string::npos) e = s.size(); if (r.chance(0.5)) s.erase(i + 1, e - i - 1); else s.erase(i, e - i); break; }
      case 13: { // a number in a header made zero, negative, larger
        std::vector<size_t> dg; for (size_t i = 1; i < s.size(); i++) if (isdigit(s[i]) && !isdigit(s[i - 1])) dg.push_back(i); if (dg.empty()) break; size_t i = dg[r.next() % dg.size()]; size_t e = i; while (e < s.size() && isdigit(s[e])) e++;
        static const char* nv[] = {"0", "-1", "1", "2", "17", "4000", "00000", "-7", "65536"}; s.replace(i, e - i, nv[r.irange(0, 8)]); break; }
      case 14: { auto v = split(s); if (v.size() < 4) break; size_t a = r.next() % v.size(), b = std::min(v.size(), a + (size_t)r.irange(1, 8)); v.erase(v.begin() + a, v.begin() + b); s = join(v); break; }
      default: { auto v = split(s); if (v.empty()) break; auto& l = v[r.next() % v.size()]; std::string t(l.size() ? r.irange(1, 12) : 1, ' '); l.insert(r.next() % std::max<size_t>(1, l.size()), t); s = join(v); break; }
    }
  }
  return s;
}

static void run(Rng& r, uint64_t c) {
  Gen g(r, true); bool neu = r.chance(0.2); std::string text = neu ? g.neu() : g.cdb();
  int style = (int)r.irange(0, 19);
  if (style == 0) { text.clear(); for (int k = (int)r.irange(0, 400); k > 0; k--) text += (char)r.irange(0, 255); }
  else if (style == 1) { const char* kw[] = {"NBLOCK", "EBLOCK", "CMBLOCK", "CE", "D", "F", "ET", "TYPE", "*SET", "(19i9)", "(3i9,6e20.13)", "(8i10)", "-1", "1", "UX", "NODE", "DEFI", "R5.0"}; text.clear(); for (int k = (int)r.irange(1, 60); k > 0; k--) { text += kw[r.irange(0, 17)]; text += ",\n , "[r.irange(0, 3)]; } }
  else text = damage(r, text, neu);
  std::string file = scratchFile(neu ? "neu" : "cdb"); write(file, text);
  { std::string t = text.substr(0, 300); for (auto& ch : t) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '|'; mon::note(mon::Str() << text.size() << " bytes: " << t); }
  fflush(0);
  int fds[2]; if (pipe(fds) != 0) return;
  pid_t p = fork();
  if (p == 0) {
    close(fds[0]); dup2(fds[1], 2); dup2(fds[1], 1); alarm(60);
    int rc = 0;
    try {
      MeshData md; bool ok = neu ? readNeuFile(file, md) : readCdbFile(file, md);
      if (ok) {
        rc = 10;
        if (md.nodesPos.size() != md.nodesNumbers.size() || md.cellNodes.size() != md.cellNumbers.size()) rc = 20;
        for (auto& a : md.cellIntData) if (a.second.size() != md.cellNumbers.size()) rc = 21;
        for (auto* q : md.mpcs) if (!q) rc = 22;
        for (auto& k : md.feComps) if (k.first != k.second.name) rc = 23;
        // what was read can be used
        md.getDegeneratedCells(); md.getCellsByAttribute("TYPE", 1); md.compressNumbers();
        for (size_t i = 0; i < md.nodesNumbers.size(); i++) if (md.nodesNumbers[i] != i + 1) rc = 24;
      } else rc = 11;
    } catch (const std::exception&) { rc = 12; }
    _exit(rc);
  }
  close(fds[1]);
  std::string err; char buf[4096]; ssize_t n; while ((n = read(fds[0], buf, sizeof buf)) > 0) if (err.size() < 8000) err.append(buf, n);
  close(fds[0]); int st = 0; waitpid(p, &st, 0);
  mon::ev("damaged_files"); mon::sig(mon::Str() << mon::fnv(text));
  const char* kind = neu ? "neu" : "cdb";
  if (WIFEXITED(st)) {
    int rc = WEXITSTATUS(st);
    if (rc == 99 || rc == 98) {
      if (err.find("out-of-memory") != std::string::npos || err.find("allocation-size-too-big") != std::string::npos || err.find("requested-size-too-big") != std::string::npos) mon::ev("memory_limit");
      else { size_t q = err.find("ERROR:"); mon::fail(std::string(kind) + ".memory", err.substr(q == std::string::npos ? 0 : q, 500)); }
    } else if (rc == 10) mon::ev("accepted"); else if (rc == 11) mon::ev("refused"); else if (rc == 12) mon::ev("exceptions");
    else mon::fail(std::string(kind) + ".inconsistent", mon::Str() << "the mesh read is inconsistent, code " << rc);
  } else if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGABRT) {
      if (err.find("Assertion") != std::string::npos) mon::fail(std::string(kind) + ".assert", err.substr(0, 500)); else mon::ev("fatal_reported");
    } else if (WTERMSIG(st) == SIGALRM) mon::fail(std::string(kind) + ".hang", "reading does not end");
    else mon::fail(std::string(kind) + ".signal", mon::Str() << "ended by signal " << WTERMSIG(st));
  }
  unlink(file.c_str());
}
mon::Harness mon::harness() { return {"C16", 12000, 300000, run, nullptr}; }
