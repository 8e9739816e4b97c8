// C11: hyperelastic materials: stresses and tangents are the first and second derivatives of the stored energy; parameters and names behave as entered.
#include "mon.h"
#include "la.h"
#include "hd.h"
#include <memory>
#include "materials/MaterialFactory.h"
#include "solidmech.h"
using namespace nla3d; using namespace nla3d::solidmech;
using mon::Rng; using mon::Str; using la::M;

namespace {
const int IJ[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
bool diag(int c) { return IJ[c][0] == IJ[c][1]; }
int comp(int i, int j) { if (i > j) std::swap(i, j); return i == 0 ? j : i == 1 ? 2 + j : 5; }
M sym(const double* c) { M m(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = c[comp(i, j)]; return m; }
M randF(Rng& r) {
  M f(3, 3); double amp = r.pick(std::vector<double>{1e-6, 1e-3, 0.1, 0.4, 0.8});
  do { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f(i, j) = (i == j) + r.range(-amp, amp); } while (la::det(f) < 0.15);
  if (r.chance(0.2)) { double s = r.logrange(0.5, 2); f = f * s; }
  return f;
}
struct Mat { Hyper h; std::unique_ptr<Material> m; Mat_Hyper_Isotrop_General* g; };
Mat make(Rng& r) {
  Mat x; x.h.kind = (int)r.irange(0, 2);
  x.m.reset(MaterialFactory::createMaterial(Hyper::name(x.h.kind)));
  x.g = dynamic_cast<Mat_Hyper_Isotrop_General*>(x.m.get());
  static const char* N[3][5] = {{"G", "K"}, {"C10", "C20", "C30", "C01", "K"}, {"C10", "C01", "K"}};
  int n = Hyper::nc(x.h.kind);
  mon::check("constants.count", x.m->getNumC() == n, "number of constants");
  bool byName = r.chance(0.5); auto ord = r.perm(n);
  for (int i = 0; i < n; i++) { x.h.c[i] = i == n - 1 ? r.logrange(1, 1e4) : (i == 0 ? r.logrange(1e-2, 1e2) : r.range(-1, 1) * x.h.c[0]); }
  if (r.chance(0.15) && n > 2) x.h.c[(int)r.irange(1, n - 2)] = 0;
  for (auto i : ord) if (byName) x.m->Ci(N[x.h.kind][i]) = x.h.c[i]; else x.m->Ci((uint16)i) = x.h.c[i];
  if (r.chance(0.05)) for (const char* no : {"C", "C1", "C100", "c10", "K1", "", "GK", " K", "undefined"}) { x.m->Ci(std::string(no)) = 777; mon::ev("unknown_constants"); } // no constant has such a name
  for (int i = 0; i < n; i++) { mon::check("constants.value", x.m->Ci((uint16)i) == x.h.c[i] && x.m->Ci(std::string(N[x.h.kind][i])) == x.h.c[i], Str() << "constant " << N[x.h.kind][i]); mon::ev("constants"); }
  mon::check("bulk", x.g->getK() == x.h.K(), "bulk modulus");
  mon::check("name", x.m->getName() == Hyper::name(x.h.kind), Str() << "material created as " << Hyper::name(x.h.kind) << " calls itself " << x.m->getName());
  std::string t = x.m->toString(); for (int i = 0; i < n; i++) mon::check("description", t.find(N[x.h.kind][i]) != std::string::npos, "description lists every constant");
  return x;
}
void run(Rng& r, uint64_t) {
  Mat x = make(r); M F = randF(r);
  M Cm = F.t() * F; double C[6]; for (int i = 0; i < 6; i++) C[i] = Cm(IJ[i][0], IJ[i][1]);
  double p = r.chance(0.2) ? 0 : r.range(-2, 2) * x.h.c[0];
  mon::note(Str() << Hyper::name(x.h.kind) << " J " << la::det(F) << " p " << p);
  // kinematic helpers
  double J = solidmech::J_C(C), inv[6], ic[3]; solidmech::invC_C(C, J, inv); solidmech::IC_C(C, ic);
  double cn = la::cond(Cm), cm = Cm.maxAbs();
  mon::near("kinematics.J", J, la::det(F), 1e-12 * cn * cm * 10, "J = det F");
  { M e = Cm * sym(inv); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) mon::near("kinematics.inverse", e(i, j), i == j, 1e-12 * cn * cn, "C * C^-1"); }
  mon::near("kinematics.I1", ic[0], C[0] + C[3] + C[5], 1e-13 * cm * 3, "first invariant");
  { M c2 = Cm * Cm; mon::near("kinematics.I2", ic[1], 0.5 * (ic[0] * ic[0] - (c2(0, 0) + c2(1, 1) + c2(2, 2))), 1e-12 * cm * cm * 10, "second invariant"); }
  mon::near("kinematics.I3", ic[2], J, 0, "third invariant is J");
  { double E[6], base[6]; for (int i = 0; i < 6; i++) E[i] = base[i] = r.range(-1, 1); solidmech::E_C(C, E); for (int i = 0; i < 6; i++) mon::near("kinematics.E", E[i] - base[i], 0.5 * (C[i] - diag(i)), 1e-13 * (cm + 1), "Green strain is added"); }
  // energy
  HD c[6], Jh; for (int i = 0; i < 6; i++) c[i] = HD(C[i]);
  HD w = x.h.iso(c, Jh); double pw = std::pow(J, -2.0 / 3);
  double wm = 0; for (int i = 0; i < Hyper::nc(x.h.kind) - 1; i++) wm += std::fabs(x.h.c[i]);
  double i1 = ic[0] * pw, grow = std::pow(std::max(i1, 3.0), 3) ;
  mon::near("energy", x.g->W(ic[0] * pw, ic[1] * pw * pw, 0), (double)w.f, 1e-12 * wm * grow * cn, "strain energy of the isochoric invariants");
  // stress and tangent by differentiation of psi = W + p (J - 1)
  double S[6], D[6][6]; double tl = 1e-12 * cn * cn * (wm * grow + std::fabs(p) * (1 + J)) * 10;
  for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) {
    HD v[6], jj; for (int i = 0; i < 6; i++) v[i] = HD(C[i], i == a, i == b, 0);
    HD psi = x.h.iso(v, jj); psi = psi + HD(p) * jj;
    double fa = diag(a) ? 1 : 0.5, fb = diag(b) ? 1 : 0.5;
    if (a == b) S[a] = (double)(2 * fa * psi.a);
    D[a][b] = D[b][a] = (double)(2 * fa * fb * psi.ab);
  }
  // every subset of components in any order, as the elements ask for them
  std::vector<tensorComponents> comps; int mode = (int)r.irange(0, 3);
  if (mode == 0) comps.assign(solidmech::defaultTensorComponents, solidmech::defaultTensorComponents + 6);
  else if (mode == 1) comps = {M_XX, M_YY, M_XY};
  else { auto pm = r.perm(6); int n = (int)r.irange(1, 6); for (int i = 0; i < n; i++) comps.push_back((tensorComponents)pm[i]); }
  int n = (int)comps.size(); const double POISON = 1e300;
  std::vector<double> s(n + 1, POISON), dd(n * (n + 1) / 2 + 1, POISON), dp(n + 1, POISON);
  double keep[6]; std::copy(C, C + 6, keep);
  x.g->getS_UP((uint16)n, comps.data(), C, p, s.data());
  x.g->getDdDp_UP((uint16)n, comps.data(), C, p, dd.data(), dp.data());
  mon::check("pure", std::equal(C, C + 6, keep), "deformation is not modified");
  mon::check("extent", s[n] == POISON && dp[n] == POISON && dd.back() == POISON, "writes only the requested components");
  int k = 0;
  for (int i = 0; i < n; i++) {
    mon::near("stress", s[i], S[comps[i]], tl, Str() << "stress " << labelsTensorComponent[comps[i]]);
    mon::near("pressure.derivative", dp[i], J * inv[comps[i]], 1e-12 * cn * cn * J * 10, "dS/dp"); 
    for (int j = i; j < n; j++, k++) mon::near("tangent", dd[k], D[comps[i]][comps[j]], tl * cn * 10, Str() << "tangent " << labelsTensorComponent[comps[i]] << "," << labelsTensorComponent[comps[j]]);
  }
  mon::ev("stresses", n); mon::ev("tangents", n * (n + 1) / 2);
  // isotropy and objectivity at the level of the stress: S(Q^T C Q) = Q^T S(C) Q
  if (r.chance(0.3)) {
    double t = r.range(0, 6.28); int ax = (int)r.irange(0, 2); M Q = M::eye(3); int a = (ax + 1) % 3, b = (ax + 2) % 3; Q(a, a) = Q(b, b) = std::cos(t); Q(a, b) = -std::sin(t); Q(b, a) = std::sin(t);
    M C2 = Q.t() * Cm * Q; double c2[6], s1[6], s2[6]; for (int i = 0; i < 6; i++) c2[i] = C2(IJ[i][0], IJ[i][1]);
    x.g->getS_UP(6, solidmech::defaultTensorComponents, C, p, s1); x.g->getS_UP(6, solidmech::defaultTensorComponents, c2, p, s2);
    M e = Q.t() * sym(s1) * Q - sym(s2); mon::near("isotropy", e.maxAbs(), 0, tl * 100, "rotated state"); mon::ev("rotations");
  }
  if (r.chance(0.05)) {
    double e6[6] = {1, 0, 0, 1, 0, 1}, s0[6]; x.g->getS_UP(6, solidmech::defaultTensorComponents, e6, 0, s0); for (int i = 0; i < 6; i++) mon::near("natural.state", s0[i], 0, 1e-13 * wm * 10, "undeformed body is free of stress"); mon::ev("natural_states");
    mon::check("unknown", MaterialFactory::createMaterial(r.pick(std::vector<std::string>{"", "Neo-Hook", "neo-hookean", "Biderman ", "Hooke"})) == nullptr, "unknown material names are refused");
  }
  mon::sig(Str() << x.h.kind << mode << n << (p == 0) << (int)std::floor(std::log10(la::det(F)) * 4));
}
} // namespace
mon::Harness mon::harness() { return {"C11", 120000, 4000000, run, nullptr}; }
