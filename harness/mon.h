// Common runtime of the monitors: deterministic random source, case scheduler, event counters,
// failure reporting.  A harness defines `mon::Harness mon::harness()` and is run by run_check.py as
//   harness --seed S --tier quick|thorough --begin B --end E --stride N --out FILE [--only K]
// It runs cases B, B+N, B+2N ... < E.  The number of the running case is kept in a mmapped file so
// that the driver knows which case ended the process when a sanitizer, assert or LOG(FATAL) fires.
#pragma once
#include "sys.h"
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sstream>
#include <vector>
#include <limits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

#pragma GCC diagnostic ignored "-Wall"

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // integer in [a, b]
  long irange(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return uni() < p; }
  double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
  double range(double a, double b) { return a + (b - a) * uni(); }
  double sign() { return chance(0.5) ? 1.0 : -1.0; }
  // magnitude spread over decades
  double logrange(double lo, double hi) { return std::exp(range(std::log(lo), std::log(hi))); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]); }
  std::vector<uint32> perm(uint32 n, uint32 base = 0) { std::vector<uint32> p(n); for (uint32 i = 0; i < n; i++) p[i] = i + base; shuffle(p); return p; }
};

struct Harness {
  const char* property;
  uint64_t quickCases, thoroughCases;
  std::function<void(Rng&, uint64_t)> run;
  std::function<void()> init;
};
Harness harness();

struct State {
  uint64_t seed = 1, cur = 0, executed = 0;
  bool thorough = false;
  std::map<std::string, uint64_t> events;
  std::map<std::string, double> maxima;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::map<std::string, std::pair<uint64_t, std::string>> failures; // key -> (case, message)
  std::map<std::string, uint64_t> failcount;
  FILE* out = nullptr;
  volatile uint64_t* progress = nullptr;
  size_t maxSamples = 3;
  std::string caseSig;
  std::string note; // context of the running case, printed with failures
};
inline State& st() { static State* s = new State; return *s; }

inline uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// count an observed event
inline void ev(const std::string& name, uint64_t n = 1) { st().events[name] += n; }
// remember the largest value a monitor saw (e.g. largest accepted deviation relative to its bound)
inline void maxi(const std::string& name, double v) { auto it = st().maxima.find(name); if (it == st().maxima.end() || v > it->second) st().maxima[name] = v; }
// signature of a non-trivial case
inline void sig(const std::string& s) { st().caseSig += s; st().caseSig += ";"; }
inline void sample(const std::string& s) { if (st().samples.size() < st().maxSamples) st().samples.push_back("case " + std::to_string(st().cur) + ": " + s); }
inline void note(const std::string& s) { st().note = s; }
inline std::string oneLine(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }

// report a violation; key names the sub-check that fired
inline void fail(const std::string& key, const std::string& msg) {
  State& s = st();
  s.failcount[key]++;
  if (s.failures.count(key)) return;
  s.failures[key] = std::make_pair(s.cur, msg);
  if (s.out) {
    fprintf(s.out, "FAIL\t%llu\t%s\t%s\t%s\n", (unsigned long long)s.cur, key.c_str(), oneLine(msg).c_str(), oneLine(s.note).c_str());
    fflush(s.out);
  }
}
inline std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

// |a-b| <= tol, false for NaN; records how close to the bound accepted values came
inline bool near(const std::string& key, double a, double b, double tol, const std::string& what = "") {
  double d = std::fabs(a - b);
  bool ok = d <= tol;
  if (a == b) ok = true; // equal infinities
  if (!ok) fail(key, what + " got " + num(a) + " expected " + num(b) + " |diff| " + num(d) + " > tol " + num(tol));
  else if (tol > 0) maxi("max_dev_over_tol:" + key, d / tol);
  return ok;
}
inline bool check(const std::string& key, bool cond, const std::string& what = "") {
  if (!cond) fail(key, what);
  return cond;
}

struct Str { std::ostringstream o; template <class T> Str& operator<<(const T& v) { o << v; return *this; } operator std::string() const { return o.str(); } std::string str() const { return o.str(); } };

inline void quietLogger() {
  el::Configurations conf;
  conf.setToDefault();
  conf.setGlobally(el::ConfigurationType::Enabled, "true");
  conf.setGlobally(el::ConfigurationType::ToFile, "false");
  conf.setGlobally(el::ConfigurationType::ToStandardOutput, "false");
  conf.setGlobally(el::ConfigurationType::PerformanceTracking, "false");
  conf.set(el::Level::Fatal, el::ConfigurationType::ToStandardOutput, "true");
  el::Loggers::reconfigureAllLoggers(conf);
}

inline void jsonStr(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

inline void dumpState() {
  State& s = st();
  FILE* f = s.out;
  if (!f) return;
  fprintf(f, "DONE\t{\"executed\":%llu,\"events\":{", (unsigned long long)s.executed);
  bool first = true;
  for (auto& e : s.events) { if (!first) fputc(',', f); first = false; jsonStr(f, e.first); fprintf(f, ":%llu", (unsigned long long)e.second); }
  fprintf(f, "},\"maxima\":{");
  first = true;
  for (auto& e : s.maxima) { if (!first) fputc(',', f); first = false; jsonStr(f, e.first); if (std::isfinite(e.second)) fprintf(f, ":%.6g", e.second); else fprintf(f, ":null"); }
  fprintf(f, "},\"failcount\":{");
  first = true;
  for (auto& e : s.failcount) { if (!first) fputc(',', f); first = false; jsonStr(f, e.first); fprintf(f, ":%llu", (unsigned long long)e.second); }
  fprintf(f, "},\"sigs\":[");
  first = true;
  for (auto h : s.sigs) { if (!first) fputc(',', f); first = false; fprintf(f, "\"%llx\"", (unsigned long long)h); }
  fprintf(f, "],\"samples\":[");
  first = true;
  for (auto& e : s.samples) { if (!first) fputc(',', f); first = false; jsonStr(f, e); }
  fprintf(f, "]}\n");
  fflush(f);
}

inline void checkpoint() { // partial state, in case a later case ends the process
  State& s = st();
  if (!s.out) return;
  dumpState();
  s.events.clear(); s.samples.clear(); s.sigs.clear(); s.executed = 0; s.failcount.clear(); s.maxima.clear();
  s.maxSamples = 0;
}
} // namespace mon

#ifndef MON_NO_MAIN
int main(int argc, char** argv) {
  using namespace mon;
  uint64_t begin = 0, end = ~0ull, stride = 1;
  std::string out, prog;
  State& s = st();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--tier") s.thorough = v == "thorough";
    else if (a == "--begin") begin = strtoull(v.c_str(), 0, 10);
    else if (a == "--end") end = strtoull(v.c_str(), 0, 10);
    else if (a == "--stride") stride = strtoull(v.c_str(), 0, 10);
    else if (a == "--out") out = v;
    else if (a == "--progress") prog = v;
    else if (a == "--only") { begin = strtoull(v.c_str(), 0, 10); end = begin + 1; }
  }
  Harness h = harness();
  uint64_t n = s.thorough ? h.thoroughCases : h.quickCases;
  if (n < end) end = std::max<uint64_t>(n, begin + 1 == end ? end : 0);
  s.out = out.empty() ? stdout : fopen(out.c_str(), "a");
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (ftruncate(fd, 16) != 0) return 3;
    s.progress = (volatile uint64_t*)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    s.progress[0] = ~0ull; s.progress[1] = 0;
  }
  quietLogger();
  if (h.init) h.init();
  uint64_t since = 0;
  for (uint64_t c = begin; c < end; c += stride) {
    s.cur = c;
    s.note.clear();
    s.caseSig.clear();
    if (s.progress) { s.progress[0] = c; s.progress[1]++; }
    Rng rng(s.seed * 1000003ull + c * 7919ull + fnv(h.property) % 100000);
    size_t had = s.samples.size();
    h.run(rng, c);
    s.executed++;
    if (s.samples.size() == had && !s.note.empty()) sample(s.note);
    if (!s.caseSig.empty()) s.sigs.insert(fnv(s.caseSig));
    if (++since >= 50) { checkpoint(); since = 0; s.maxSamples = 0; }
  }
  dumpState();
  if (s.progress) s.progress[0] = ~0ull - 1;
  fflush(0);
  _exit(s.failures.empty() ? 0 : 1);
}
#endif
