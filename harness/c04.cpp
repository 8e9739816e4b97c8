// C04: equation solvers return the solution of the system they were given, over histories of use.
#include "mon.h"
#include <memory>
#include <sys/wait.h>
#include <algorithm>
#include "la.h"
#include "math/EquationSolver.h"
using namespace nla3d;
using mon::check;
typedef la::M MX;
typedef la::V VX;

struct Sys { MX A; bool pos; const char* kind; double cond; };

// symmetric systems of the kinds the package produces
static Sys randSys(mon::Rng& r, int n) {
  Sys s; s.pos = false; s.kind = "";
  MX B(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B(i, j) = r.chance(0.5) ? r.range(-1, 1) : 0;
  switch (r.irange(0, 6)) {
    case 0: s.A = B.t() * B + MX::eye(n, r.range(0.5, 2)); s.pos = true; s.kind = "spd"; break;
    case 1: { // FE like: tridiagonal + few couplings
      s.A = MX(n, n);
      for (int i = 0; i < n; i++) { double k = r.logrange(0.1, 10); s.A(i, i) += k; if (i + 1 < n) { s.A(i + 1, i + 1) += k; s.A(i, i + 1) -= k; s.A(i + 1, i) -= k; } }
      s.A = s.A + MX::eye(n, 0.05);
      s.pos = true; s.kind = "chain"; break; }
    case 2: s.A = B + B.t(); for (int i = 0; i < n; i++) s.A(i, i) += r.sign() * 3; s.kind = "indefinite"; break;
    case 3: { // saddle point: constraint rows with a zero diagonal block
      int m = n > 2 ? (int)r.irange(1, n / 3 + (n < 6 ? 1 : 0)) : 0; if (m > n / 2) m = n / 2;
      int k = n - m;
      MX H = B.sub(0, 0, k, k).t() * B.sub(0, 0, k, k) + MX::eye(k);
      MX G = MX(m, k);
      for (int i = 0; i < m; i++) { for (int j = 0; j < k; j++) if (r.chance(0.4)) G(i, j) = r.range(-1, 1); G(i, i) += r.sign() * 1.5; }
      s.A = MX(n, n); s.A.put(0, 0, H); s.A.put(k, 0, G); s.A.put(0, k, G.t());
      s.kind = "saddle"; break; }
    case 4: { // zero diagonal: every step needs a row exchange
      s.A = MX(n, n);
      for (int i = 0; i + 1 < n; i += 2) { double v = r.sign() * r.logrange(0.3, 3); s.A(i, i + 1) = v; s.A(i + 1, i) = v; }
      if (n % 2) s.A(n - 1, n - 1) = r.sign();
      std::vector<uint32> p = r.perm(n); MX T = s.A; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s.A(p[i], p[j]) = T(i, j);
      s.kind = "zerodiag"; break; }
    case 5: { // tiny leading pivots
      s.A = B + B.t(); for (int i = 0; i < n; i++) s.A(i, i) = r.chance(0.5) ? 1e-14 * r.sign() : r.range(-1, 1);
      for (int i = 0; i < n; i++) { int j = n - 1 - i; s.A(i, j) += 4; if (i != j) s.A(j, i) = s.A(i, j); }
      s.kind = "tinypivot"; break; }
    default: { // well scaled diagonal blocks of very different size
      s.A = MX(n, n); for (int i = 0; i < n; i++) s.A(i, i) = r.logrange(1e-3, 1e3);
      s.pos = true; s.kind = "diagonal"; break; }
  }
  double sc = r.chance(0.4) ? (r.chance(0.3) ? r.logrange(1e-16, 1e-9) : r.logrange(1e-9, 1e14)) : 1.0;
  s.A = s.A * sc;
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) s.A(j, i) = s.A(i, j);
  s.cond = la::cond(s.A);
  // pivots below 1e-20 count as singular for the dense solver
  if (!(s.A.normInf() / s.cond > 1e-17)) s.cond = std::numeric_limits<double>::infinity();
  return s;
}

static std::unique_ptr<math::SparseSymMatrix> build(mon::Rng& r, const MX& A);
// two well conditioned parts joined by a very weak link: the unloaded part moves by what the link carries, however little that is
static void weakLink(mon::Rng& r, uint64_t c) {
  int n1 = (int)r.irange(1, 10), n2 = (int)r.irange(1, 10), n = n1 + n2;
  auto part = [&](int k) { MX A(k, k); for (int i = 0; i < k; i++) { A(i, i) += r.range(1, 3); if (i + 1 < k) { double v = r.range(0.3, 1); A(i, i) += v; A(i + 1, i + 1) += v; A(i, i + 1) -= v; A(i + 1, i) -= v; } } return A; };
  MX A1 = part(n1), A2 = part(n2); int a = (int)r.irange(0, n1 - 1), e = (int)r.irange(0, n2 - 1);
  double link = r.logrange(1e-14, 1e-8) * r.sign(), sc = r.logrange(1e-4, 1e8);
  VX b1(n1); for (int i = 0; i < n1; i++) b1[i] = r.range(0.5, 1) * r.sign();
  b1[a] = 20; // never nearly zero at the link
  VX x1, x2, t(n2); la::solve(A1, b1, x1); t[e] = -link * x1[a]; la::solve(A2, t, x2);
  if (!(std::fabs(x1[a]) > 0.1 * la::maxAbs(x1))) return;
  std::vector<uint32> p = r.perm(n);
  MX A(n, n); double bs = r.logrange(1e-14, 1e6); VX b(n);
  for (int i = 0; i < n1; i++) { for (int j = 0; j < n1; j++) A(p[i], p[j]) = A1(i, j) * sc; b[p[i]] = b1[i] * bs; }
  for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) A(p[n1 + i], p[n1 + j]) = A2(i, j) * sc;
  A(p[a], p[n1 + e]) = A(p[n1 + e], p[a]) = link * sc;
  auto m = build(r, A);
  auto one = [&](math::EquationSolver& es, const char* who) {
    std::vector<double> rhs(b.begin(), b.end()), x(n, NAN);
    es.solveEquations(m.get(), rhs.data(), x.data());
    VX d1(n1), d2(n2); for (int i = 0; i < n1; i++) d1[i] = x[p[i]] * sc / bs - x1[i]; for (int i = 0; i < n2; i++) d2[i] = x[p[n1 + i]] * sc / bs - x2[i];
    std::string w = mon::Str() << who << " link " << link << " loads " << bs << " sizes " << n1 << "+" << n2;
    mon::near(std::string(who) + ".loaded", la::maxAbs(d1), 0, 1e-9 * la::maxAbs(x1), w);
    mon::near(std::string(who) + ".carried", la::maxAbs(d2), 0, 1e-9 * la::maxAbs(x2), w);
  };
  math::GaussDenseEquationSolver g; one(g, "gauss");
#ifdef NLA3D_USE_MKL
  math::PARDISO_equationSolver q; q.setSymmetric(true); q.setPositive(r.chance(0.5)); one(q, "pardiso");
#endif
  mon::ev("weakly_linked_systems"); mon::sig(mon::Str() << "link" << n1 << "," << n2 << "," << (int)std::log10(std::fabs(link)));
}

static std::unique_ptr<math::SparseSymMatrix> build(mon::Rng& r, const MX& A) {
  uint32 n = A.r;
  std::unique_ptr<math::SparseSymMatrix> m(new math::SparseSymMatrix(n, n));
  std::vector<std::pair<uint32, uint32>> e;
  for (uint32 i = 0; i < n; i++) for (uint32 j = i; j < n; j++) if (A(i, j) != 0) e.push_back(std::make_pair(i + 1, j + 1));
  r.shuffle(e);
  for (auto& p : e) m->addEntry(p.first, p.second);
  m->compress();
  for (auto& p : e) m->addValue(p.second, p.first, A(p.first - 1, p.second - 1));
  return m;
}
static void refill(math::SparseSymMatrix& m, const MX& A) {
  m.zero();
  for (uint32 i = 1; i <= m.nRows(); i++) for (uint32 j = i; j <= m.nRows(); j++) if (A(i - 1, j - 1) != 0) m.addValue(i, j, A(i - 1, j - 1));
}

static void verify(const char* who, const Sys& s, const VX& b, const std::vector<double>& x, const std::string& where) {
  int n = s.A.r;
  VX X(x);
  std::string w = mon::Str() << who << " " << s.kind << " n=" << n << " cond=" << s.cond << " " << where;
  double res = la::maxAbs(s.A * X - b);
  double scale = s.A.normInf() * la::maxAbs(X) + la::maxAbs(b);
  mon::near(std::string(who) + ".residual", res, 0, 1e-11 * scale + 1e-290, w);
  if (s.cond < 1e6) {
    VX ref; la::solve(s.A, b, ref);
    double m = la::maxAbs(ref);
    mon::near(std::string(who) + ".solution", la::maxAbs(X - ref), 0, 1e-12 * s.cond * n * m + 1e-290, w);
    mon::ev("solutions_compared");
  }
  mon::ev(std::string("solves_") + who);
  mon::ev(std::string("kind_") + s.kind);
}

static void unchanged(const char* who, math::SparseSymMatrix& m, const MX& A) {
  for (uint32 i = 1; i <= m.nRows(); i++) for (uint32 j = i; j <= m.nRows(); j++)
    if (m.value(i, j) != A(i - 1, j - 1)) { mon::fail(std::string(who) + ".matrix.modified", "the system matrix was changed by solving"); return; }
}

// does f end the process abnormally (fatal log, assert)?
template <class F> bool endsFatally(F f) {
  fflush(0);
  pid_t p = fork();
  if (p == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); f(); _exit(0); }
  int stt = 0; waitpid(p, &stt, 0);
  if (WIFEXITED(stt) && (WEXITSTATUS(stt) == 99 || WEXITSTATUS(stt) == 98)) mon::fail("fatal.sanitizer", "a sanitizer fired instead of a reported error");
  return !(WIFEXITED(stt) && WEXITSTATUS(stt) == 0);
}

static void history(mon::Rng& r, uint64_t c) {
  math::GaussDenseEquationSolver gauss;
  int rounds = (int)r.irange(1, 5);
  std::string trace;
  for (int q = 0; q < rounds; q++) {
    int n = r.chance(0.1) ? 1 : r.chance(0.15) ? (int)r.irange(40, 90) : (int)r.irange(2, 25);
    Sys s = randSys(r, n);
    if (!(s.cond < 1e10)) { mon::ev("skipped_ill_conditioned"); continue; }
    auto m = build(r, s.A);
    trace += std::string(s.kind) + std::to_string(n) + ",";
#ifdef NLA3D_USE_MKL
    math::PARDISO_equationSolver pardiso;
    pardiso.setSymmetric(true);
    pardiso.setPositive(s.pos && r.chance(0.7));
#endif
    int values = (int)r.irange(1, 3);
    for (int v = 0; v < values; v++) {
      if (v > 0) { // same pattern, new values
        double f = r.chance(0.5) ? -2.5 : 7;
        MX A2 = s.A;
        if (s.pos) f = std::fabs(f);
        for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { A2(i, j) *= f; A2(j, i) = A2(i, j); }
        if (s.pos) for (int i = 0; i < n; i++) A2(i, i) *= r.range(1, 2);
        s.A = A2;
        s.cond = la::cond(s.A);
        if (!(s.cond < 1e10) || !(s.A.normInf() / s.cond > 1e-17)) break;
        refill(*m, s.A);
        mon::ev("refactorized_same_pattern");
      }
      int subs = (int)r.irange(1, 3);
      int mode = (int)r.irange(0, 1);
      for (int k = 0; k < subs; k++) {
        VX b(n); for (int i = 0; i < n; i++) b[i] = r.chance(0.2) ? 0 : r.range(-1, 1) * (r.chance(0.2) ? 1e6 : 1);
        if (r.chance(0.3)) { double bs = r.logrange(1e-16, 1e-6); for (int i = 0; i < n; i++) b[i] *= bs; mon::ev("tiny_loads"); }
        auto one = [&](math::EquationSolver& es, const char* who) {
          std::vector<double> rhs(b.begin(), b.end()), x(n, std::numeric_limits<double>::quiet_NaN());
          if (mode == 0) es.solveEquations(m.get(), rhs.data(), x.data());
          else { if (k == 0) es.factorizeEquations(m.get()); es.substituteEquations(m.get(), rhs.data(), x.data()); if (k) mon::ev("resubstituted"); }
          verify(who, s, b, x, mon::Str() << "trace " << trace << " mode " << mode << " rhs " << k);
          unchanged(who, *m, s.A);
        };
        one(gauss, "gauss");
#ifdef NLA3D_USE_MKL
        // nearly vanishing but non-zero pivots defeat the static pivoting of PARDISO; the package does not form such systems
        if (std::string(s.kind) != "tinypivot") one(pardiso, "pardiso");
#endif
      }
    }
  }
  mon::sig(trace); mon::sample("solver history " + trace);
}

#ifdef NLA3D_USE_MKL
// one PARDISO object over systems of different shape (as when an analysis is set up again)
static void pardisoReuse(mon::Rng& r, uint64_t c) {
  math::PARDISO_equationSolver pardiso;
  pardiso.setSymmetric(true); pardiso.setPositive(false);
  int n0 = (int)r.irange(3, 20);
  std::string trace;
  std::vector<std::unique_ptr<math::SparseSymMatrix>> keep;
  for (int q = 0; q < 3; q++) {
    int n = r.chance(0.5) ? n0 : (int)r.irange(2, 25);
    Sys s = randSys(r, n);
    if (!(s.cond < 1e8) || std::string(s.kind) == "tinypivot") continue;
    auto m = build(r, s.A);
    trace += std::string(s.kind) + std::to_string(n) + ",";
    VX b(n); for (int i = 0; i < n; i++) b[i] = r.range(-1, 1);
    std::vector<double> rhs(b.begin(), b.end()), x(n, std::numeric_limits<double>::quiet_NaN());
    pardiso.solveEquations(m.get(), rhs.data(), x.data());
    verify("pardiso", s, b, x, "reuse " + trace);
    mon::ev("pardiso_reused");
    if (r.chance(0.5)) keep.push_back(std::move(m));
  }
  if (r.chance(0.2)) { math::PARDISO_equationSolver never; mon::ev("pardiso_never_used"); }
  mon::sig("reuse" + trace);
}
#endif

static void singular(mon::Rng& r, uint64_t c) {
  int n = (int)r.irange(1, 12);
  MX A(n, n);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { A(i, j) = (double)r.irange(-4, 4); A(j, i) = A(i, j); }
  int k = (int)r.irange(0, n - 1);
  bool dup = n > 1 && r.chance(0.5);
  if (dup) { int l = (k + 1) % n; for (int i = 0; i < n; i++) { A(k, i) = A(l, i); } for (int i = 0; i < n; i++) A(i, k) = A(i, l); A(k, k) = A(l, l); A(k, l) = A(l, l); A(l, k) = A(l, l); }
  else for (int i = 0; i < n; i++) { A(k, i) = 0; A(i, k) = 0; }
  std::vector<double> a(n * n), b(n, 1.0), x(n, 0.0);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = A(i, j);
  if (!dup) {
    check("singular.flag", !math::GaussDenseEquationSolver::_solve(x.data(), a.data(), b.data(), n), mon::Str() << "singular system (zero row) of size " << n << " reported as solved");
    mon::ev("singular_systems");
  }
  if (c % 8 == 0 && !dup) {
    auto m = build(r, A);
    bool f = endsFatally([&] { math::GaussDenseEquationSolver g; std::vector<double> rh(n, 1.0), xx(n, 0.0); g.solveEquations(m.get(), rh.data(), xx.data()); });
    check("singular.fatal", f, mon::Str() << "a singular system of size " << n << " was 'solved' without an error");
    mon::ev("singular_fatal_observed");
  }
#ifdef NLA3D_USE_MKL
  if (c % 4 == 1) { // what PARDISO cannot factorize it says; what it answers is finite
    bool notPos = r.chance(0.5);
    if (notPos) { for (int i = 0; i < n; i++) A(i, i) += (i % 2 ? 12 : -12) ; }
    else for (int i = 0; i < n; i++) if (A(i, i) == 0 && r.chance(0.3)) A(i, i) = 0;
    auto m = build(r, A); int pipefd[2]; CHECK(pipe(pipefd) == 0); VX b2(n); for (int i = 0; i < n; i++) b2[i] = r.range(-1, 1);
    bool f = endsFatally([&] { math::PARDISO_equationSolver g; g.setSymmetric(true); g.setPositive(notPos); std::vector<double> rh(b2.begin(), b2.end()), xx(n, NAN); g.solveEquations(m.get(), rh.data(), xx.data());
      bool fin = true; for (auto v : xx) fin &= std::isfinite(v); double res = fin ? la::maxAbs(A * VX(xx) - b2) / (A.normInf() * la::maxAbs(VX(xx)) + 1) : 1e300; bool ok = fin && (!notPos || res < 1e-9); char ch = ok ? 'y' : 'n'; (void)!write(pipefd[1], &ch, 1); });
    close(pipefd[1]); char ch = 0; ssize_t got = read(pipefd[0], &ch, 1); close(pipefd[0]);
    check("pardiso.silent", f || (got == 1 && ch == 'y'), mon::Str() << "PARDISO answered a system it could not solve, size " << n << (notPos ? " not positive definite" : " singular"));
    mon::ev(f ? "pardiso_refused" : "pardiso_answered");
  }
#endif
  mon::sig(mon::Str() << "sing" << n << "," << k << dup);
}

static void large(mon::Rng& r, uint64_t c) {
  int n = (int)r.irange(250, 400);
  Sys s; s.pos = true; s.kind = "large"; s.cond = 0;
  s.A = MX(n, n);
  for (int i = 0; i < n; i++) { double k = r.range(0.5, 2); for (int d : {1, 17}) if (i + d < n) { s.A(i, i) += k; s.A(i + d, i + d) += k; s.A(i, i + d) -= k; s.A(i + d, i) -= k; } s.A(i, i) += 0.1; }
  s.cond = 1e9; // residual test only
  auto m = build(r, s.A);
  VX b(n); for (int i = 0; i < n; i++) b[i] = r.range(-1, 1);
  math::GaussDenseEquationSolver g;
  std::vector<double> rhs(b.begin(), b.end()), x(n, NAN);
  g.solveEquations(m.get(), rhs.data(), x.data());
  verify("gauss", s, b, x, "large");
#ifdef NLA3D_USE_MKL
  math::PARDISO_equationSolver p; p.setPositive(true);
  std::vector<double> rhs2(b.begin(), b.end()), x2(n, NAN);
  p.solveEquations(m.get(), rhs2.data(), x2.data());
  verify("pardiso", s, b, x2, "large");
#endif
  mon::sig(mon::Str() << "large" << n); mon::ev("large_systems");
}

static void run(mon::Rng& r, uint64_t c) {
  if (c % 500 == 499) return large(r, c);
  switch (c % 8) {
    case 0: return singular(r, c / 8);
    case 5: return weakLink(r, c);
#ifdef NLA3D_USE_MKL
    case 1: case 2: return pardisoReuse(r, c);
#endif
    default: return history(r, c);
  }
}
mon::Harness mon::harness() { return {"C04", 4000, 80000, run, nullptr}; }
