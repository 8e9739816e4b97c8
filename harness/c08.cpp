// C08: load/time step control visits the whole interval in the requested steps.
#include "mon.h"
#include "FESolver.h"
using namespace nla3d;
using mon::check;

static void run(mon::Rng& r, uint64_t c) {
  TimeControl tc;
  double t0 = 0, t1 = 1;
  switch (r.irange(0, 4)) {
    case 0: break;
    case 1: t1 = r.logrange(1e-6, 1e6); break;
    case 2: t0 = r.range(-10, 10); t1 = t0 + r.logrange(1e-2, 1e3); break;
    case 3: t0 = (double)r.irange(0, 50); t1 = t0 + (double)r.irange(1, 100); break;
    default: t0 = r.range(0, 5); t1 = t0 + r.range(0.5, 5); break;
  }
  bool setS = t0 != 0 || r.chance(0.5), setE = t1 != 1 || r.chance(0.5), endFirst = r.chance(0.5);
  if (endFirst && setE) tc.setEndTime(t1);
  if (setS) tc.setStartTime(t0);
  if (!endFirst && setE) tc.setEndTime(t1);
  check("start", tc.getStartTime() == t0, "start time"); check("end", tc.getEndTime() == t1, "end time");
  check("initial.step", tc.getCurrentStep() == 1 && tc.getNumberOfConvergedSteps() == 0 && tc.getTotalNumberOfEquilibriumSteps() == 0, "counters before the first step");
  double span = t1 - t0;
  int mode = (int)r.irange(0, 2);
  long N = 0; double delta;
  if (mode == 0) { N = r.chance(0.1) ? r.irange(500, 2000) : r.irange(1, 120); delta = span / N; }
  else if (mode == 1) delta = span / r.range(0.2, 60);
  else delta = span / r.range(1, 30);
  std::string w = mon::Str() << "[" << t0 << "," << t1 << "] delta " << mon::num(delta) << " N " << N << " mode " << mode;
  std::vector<double> dts; double prev = t0; uint32 total = 0, conv = 0; bool ended = false;
  double eps = 1e-9 * span + 1e-12 * (std::fabs(t0) + std::fabs(t1));
  for (long guard = 0; guard < 200000; guard++) {
    double want = mode == 2 ? delta * r.range(0.3, 1.5) : delta;
    bool more = tc.nextStep(want);
    if (!more) {
      ended = true;
      check("ended.early", tc.getCurrentTime() == t1, mon::Str() << w << " stopped at " << mon::num(tc.getCurrentTime()));
      check("ended.converged", tc.getNumberOfConvergedSteps() == conv, mon::Str() << w << " converged " << tc.getNumberOfConvergedSteps() << " expected " << conv);
      break;
    }
    double t = tc.getCurrentTime(), dt = t - prev;
    if (!check("increasing", t > prev, mon::Str() << w << " time " << mon::num(t) << " after " << mon::num(prev))) return;
    check("within", t <= t1, mon::Str() << w << " time " << mon::num(t) << " beyond the end");
    check("not.larger", dt <= want * (1 + 1e-5) + eps, mon::Str() << w << " step " << mon::num(dt) << " larger than requested " << mon::num(want));
    dts.push_back(dt);
    check("eq.reset", tc.getCurrentEquilibriumStep() == 0, "equilibrium counter not reset by a new step");
    check("converged.count", tc.getNumberOfConvergedSteps() == conv && tc.getCurrentStep() == conv + 1, mon::Str() << w << " step counters");
    int its = c % 2000 == 8 && dts.size() < 3 ? (int)r.irange(25000, 60000) : (int)r.irange(1, N > 200 ? 2 : 5); if (its > 100) { total += its - 5; for (int k = 5; k < its; k++) tc.nextEquilibriumStep(); mon::ev("many_iterations"); }
    int k0 = its > 100 ? its - 5 : 0;
    for (int k = k0 + 1; k <= its; k++) {
      tc.nextEquilibriumStep(); total++;
      check("eq.count", tc.getCurrentEquilibriumStep() == k && tc.getTotalNumberOfEquilibriumSteps() == total, "equilibrium counters");
      double d = tc.getCurrentTimeDelta(), nd = tc.getCurrentNormalizedTimeDelta();
      mon::near("delta", d, k == 1 ? dt : 0.0, k == 1 ? eps : 0, w);
      mon::near("delta.normalized", nd, k == 1 ? dt / span : 0.0, k == 1 ? eps / span : 0, w);
      check("time.fixed", tc.getCurrentTime() == t, "time moved inside a step");
      mon::near("normalized", tc.getCurrentNormalizedTime(), (t - t0) / span, 1e-9, w);
    }
    conv++;
    prev = t;
    mon::ev("steps");
  }
  check("terminates", ended, w);
  if (mode != 2 && !dts.empty()) {
    double q = span / delta; long n = (long)std::llround(q);
    bool integer = std::fabs(q - n) < 1e-7 * q;
    if (!integer) n = (long)std::ceil(q);
    if (integer || std::fabs(q - std::llround(q)) > 1e-4) { check("count", (long)dts.size() == n, mon::Str() << w << " made " << dts.size() << " steps, expected " << n); mon::ev("step_counts_checked"); }
    for (size_t i = 0; i + 2 < dts.size(); i++) mon::near("uniform", dts[i], delta, 1e-9 * delta + eps, w);
    if (dts.size() >= 2) mon::near("last.pair", dts[dts.size() - 1], dts[dts.size() - 2], 1e-3 * delta + eps, w); // the rest is shared by the last two steps
    if (integer) for (size_t i = 0; i < dts.size(); i++) mon::near("grid", dts[i], delta, 1e-5 * delta + eps, w);
    if (mode == 0) mon::ev("requested_divisions");
  }
  if (t0 != 0) mon::ev("nonzero_start");
  mon::sig(mon::Str() << mode << "/" << dts.size() << "/" << (t0 != 0) << total);
  mon::sample(w + mon::Str().str() + " steps " + std::to_string(dts.size()));
}
mon::Harness mon::harness() { return {"C08", 9000, 1000000, run, nullptr}; }
