// C10: element result queries add scale times the result, average over the element on request, and say when a result does not exist.
#include "hyper.h"
#include "phys.h"
using namespace hyp;

namespace {
typedef std::vector<double> D;
// one query of any kind as a function: values are added to `io`
struct Q { std::string name; int n; std::function<bool(D& io, uint16 gp, double scale, int how)> ask; };
Q qs(Element* e, scalarQuery q) { return {std::string("scalar ") + query2label(q), 1, [=](D& io, uint16 gp, double s, int how) { double v = io[0]; bool b = how == 0 ? e->getScalar(&v, q, gp, s) : how == 1 ? e->getScalar(&v, q, gp) : e->getScalar(&v, q); io[0] = v; return b; }}; }
Q qv(Element* e, vectorQuery q) { return {std::string("vector ") + query2label(q), 3, [=](D& io, uint16 gp, double s, int how) {
  std::unique_ptr<math::Vec<3>> v(new math::Vec<3>(io[0], io[1], io[2])); bool b = how == 0 ? e->getVector(v.get(), q, gp, s) : how == 1 ? e->getVector(v.get(), q, gp) : e->getVector(v.get(), q); for (int i = 0; i < 3; i++) io[i] = (*v)[i]; return b; }}; }
Q qt(Element* e, tensorQuery q) { return {std::string("tensor ") + query2label(q), 6, [=](D& io, uint16 gp, double s, int how) {
  std::unique_ptr<math::MatSym<3>> v(new math::MatSym<3>); for (int i = 0; i < 6; i++) v->comp((uint16)IJ[i][0], (uint16)IJ[i][1]) = io[i];
  bool b = how == 0 ? e->getTensor(v.get(), q, gp, s) : how == 1 ? e->getTensor(v.get(), q, gp) : e->getTensor(v.get(), q); for (int i = 0; i < 6; i++) io[i] = v->comp((uint16)IJ[i][0], (uint16)IJ[i][1]); return b; }}; }
std::vector<Q> all(Element* e) {
  std::vector<Q> r;
  for (int i = 0; i < (int)scalarQuery::LAST; i++) r.push_back(qs(e, (scalarQuery)i));
  for (int i = 0; i < (int)vectorQuery::LAST; i++) r.push_back(qv(e, (vectorQuery)i));
  for (int i = 0; i < (int)tensorQuery::LAST; i++) r.push_back(qt(e, (tensorQuery)i));
  return r;
}
double mx(const D& a) { double m = 0; for (double v : a) m = std::max(m, std::fabs(v)); return m; }
// the contract of one supported query at one point: base = value for (zero, scale 1)
D contract(Rng& r, const std::string& el, const Q& q, uint16 gp) {
  D base(q.n, 0.0); std::string k = el + "." + q.name;
  bool ok = q.ask(base, gp, 1.0, 0); mon::check(k + ".supported", ok, "a result this element provides is delivered");
  if (!ok) return base;
  double s = r.pick(D{1, 0, -1, 0.5, 2, -3.75, 1e-3, 1e3}) * r.range(0.5, 2); D io(q.n), in; for (auto& v : io) v = r.range(-10, 10) * (1 + mx(base)); in = io;
  ok = q.ask(io, gp, s, 0); mon::check(k + ".supported", ok, "support does not depend on arguments");
  for (int i = 0; i < q.n; i++) mon::near(k + ".scaled.add", io[i] - in[i], s * base[i], 1e-13 * (mx(in) * 4 + std::fabs(s) * mx(base) * 100), Str() << q.name << " of " << el << " component " << i << " gp " << gp << ": result must grow by scale " << s << " times " << base[i]);
  D d(q.n, 0.0); q.ask(d, gp, 1.0, 1); for (int i = 0; i < q.n; i++) mon::near(k + ".default.scale", d[i], base[i], 0, "scale defaults to one");
  mon::ev("contracts");
  return base;
}
void refused(Rng& r, const std::string& el, const Q& q, int npts) {
  for (uint16 gp : {(uint16)GP_MEAN, (uint16)0, (uint16)(npts - 1)}) {
    D io(q.n), in; for (auto& v : io) v = r.range(-10, 10); in = io;
    bool ok = q.ask(io, gp, r.range(-2, 2), r.chance(0.5) ? 0 : 2);
    mon::check(el + "." + q.name + ".refused", !ok, "a result this element does not have is refused"); mon::check(el + "." + q.name + ".refused.untouched", io == in, "refused query leaves the value alone"); mon::ev("refusals");
  }
}
void hyper(Rng& r) {
  int dim = r.chance(0.6) ? 2 : 3; Mesh m(r, dim, 1 + (dim == 2), true); m.ready();
  std::vector<std::vector<double>> U; D p; double worst; 
  std::string el = dim == 2 ? "PLANE41" : "SOLID81";
  std::set<std::string> sup = dim == 2 ? std::set<std::string>{"scalar S_P", "vector IC", "tensor COUCHY", "tensor PK2", "tensor C", "tensor E"} : std::set<std::string>{"scalar S_P", "scalar WU", "scalar WP", "scalar VOL", "vector IC", "tensor COUCHY", "tensor PK2", "tensor C", "tensor E"};
  mon::note(Str() << el << " order " << m.order << " " << Hyper::name(m.h.kind));
  for (int round = 0; round < 2; round++) {
    if (!m.randomField(r, U, p, worst)) continue;
    m.set(U, p);
    for (size_t e = 0; e < m.els.size(); e++) {
      auto* iq = dim == 2 ? (ElementIsoParamQUAD*)dynamic_cast<ElementIsoParamQUAD*>(m.els[e]) : nullptr; auto* ih = dim == 3 ? dynamic_cast<ElementIsoParamHEXAHEDRON*>(m.els[e]) : nullptr;
      int npts = iq ? iq->nOfIntPoints() : ih->nOfIntPoints(); mon::check("points", npts == (int)std::pow(m.order, dim), "number of integration points");
      auto ref = gauss(dim, m.order); std::vector<State> st(npts); D w(npts); double vol = 0; 
      for (int g = 0; g < npts; g++) { double xi[3] = {0, 0, 0}; if (iq) iq->np2rst((uint16)g, xi); else ih->np2rst((uint16)g, xi);
        const Pt* q = nullptr; for (auto& a : ref) if (std::fabs(a.xi[0] - xi[0]) + std::fabs(a.xi[1] - xi[1]) + std::fabs(a.xi[2] - xi[2]) < 1e-9) q = &a;
        if (!mon::check("points.location", q != nullptr, "integration point of the Gauss rule")) return;
        M gr; w[g] = q->w * grads(dim, m.elX((int)e), q->xi, gr); vol += w[g]; st[g] = state(m.h, dim, gr, m.elU((int)e, U), p[e], false); }
      for (auto& q : all(m.els[e])) {
        if (!sup.count(q.name)) { if (e == 0) refused(r, el, q, npts); continue; }
        D mean(q.n, 0.0); double big = 0;
        for (int g = 0; g < npts; g++) {
          D b = contract(r, el, q, (uint16)g); big = std::max(big, mx(b));
          State& s = st[g]; D want(q.n); double tol = 1e-11 * worst;
          double smax = 0; for (double v : s.S) smax = std::max(smax, std::fabs(v)); smax += std::fabs(p[e]) + m.h.c[0];
          if (q.name == "scalar S_P") { want[0] = p[e]; tol = 0; }
          else if (q.name == "scalar WU") { want[0] = s.W; tol *= m.h.c[0] * 10; }
          else if (q.name == "scalar WP") { want[0] = 0.5 * m.h.K() * (s.J - 1) * (s.J - 1); tol *= m.h.K(); }
          else if (q.name == "scalar VOL") { want[0] = 0; double v = 0; for (auto& a : ref) { M gr; v += a.w * grads(dim, m.elX((int)e), a.xi, gr); } want[0] = v; tol = 1e-12 * v; }
          else if (q.name == "vector IC") { want = {s.I1, s.I2, s.J}; }
          else if (q.name == "tensor C") for (int i = 0; i < 6; i++) want[i] = s.C[i];
          else if (q.name == "tensor E") for (int i = 0; i < 6; i++) want[i] = 0.5 * (s.C[i] - (IJ[i][0] == IJ[i][1]));
          else if (q.name == "tensor PK2") { for (int i = 0; i < 6; i++) want[i] = s.S[i]; tol *= smax; }
          else { M S(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S(i, j) = s.S[comp(i, j)]; M c = (s.F * S * s.F.t()) * (1 / s.J); for (int i = 0; i < 6; i++) want[i] = c(IJ[i][0], IJ[i][1]); tol *= smax * 10; }
          for (int i = 0; i < q.n; i++) mon::near(el + "." + q.name, b[i], want[i], tol, Str() << q.name << " component " << i << " at point " << g);
          mon::ev("point_results", q.n);
          for (int i = 0; i < q.n; i++) mean[i] += b[i] * w[g] / vol;
        }
        D a = contract(r, el, q, GP_MEAN); for (int i = 0; i < q.n; i++) mon::near(el + "." + q.name + ".mean", a[i], mean[i], 1e-12 * (big + 1e-3) * npts, Str() << q.name << " averaged over the element");
        D dflt(q.n, 0.0); q.ask(dflt, 0, 1, 2); for (int i = 0; i < q.n; i++) mon::near(el + "." + q.name + ".default", dflt[i], a[i], 0, "the default is the average");
        mon::ev("means");
      }
    }
  }
  mon::sig(Str() << dim << m.order << m.h.kind << m.els.size());
}
void linear(Rng& r) {
  FEStorage s; int kind = (int)r.irange(0, 6); std::vector<fe::V3> x; Element* e; std::string el; std::set<std::string> sup; std::vector<Dof::dofType> t = {Dof::UX, Dof::UY, Dof::UZ};
  double A = r.range(0.5, 2), sc = r.logrange(0.1, 10), vol = 0; ElementTETRA0* t0 = nullptr; ElementTETRA1* t1 = nullptr;
  auto jit = [&] { return r.range(-0.15, 0.15); };
  std::vector<fe::V3> tet = {fe::V3(jit(), jit(), jit()), fe::V3(1 + jit(), jit(), jit()), fe::V3(jit(), 1 + jit(), jit()), fe::V3(jit(), jit(), 1 + jit())}; for (auto& v : tet) v *= sc;
  switch (kind) {
    case 0: { auto* q = new ElementTETRA0; q->E = r.range(1, 100); q->my = r.range(0, 0.45); q->alpha = r.range(0, 1e-2); q->T = r.range(-50, 50); t0 = q; e = q; el = "TETRA0"; x = tet; sup = {"scalar VOL", "tensor C", "tensor E", "tensor TSTRAIN"}; break; }
    case 1: { auto* q = new ElementTETRA1; q->k = r.range(1, 100); t1 = q; e = q; el = "TETRA1"; x = tet; t = {Dof::TEMP}; sup = {"scalar VOL", "vector FLUX", "vector GRADT"}; break; }
    case 2: { auto* q = new ElementTRUSS3; q->E = 10; q->A = A; e = q; el = "TRUSS3"; x = {tet[0], tet[1]}; break; }
    case 3: { auto* q = new ElementQUADTH; q->k = 2; q->rho = 1; q->c = 1; e = q; el = "QUADTH"; x = {fe::V3(0, 0, 0), fe::V3(1, 0, 0), fe::V3(1 + jit(), 1, 0), fe::V3(0, 1 + jit(), 0)}; t = {Dof::TEMP}; break; }
    case 4: { auto* q = new ElementTRIANGLE4; q->E = 10; q->my = 0.3; e = q; el = "TRIANGLE4"; x = {fe::V3(0, 0, 0), fe::V3(1 + jit(), 0, 0), fe::V3(jit(), 1, 0)}; t = {Dof::UX, Dof::UY}; break; }
    case 5: { auto* q = new ElementINTER0; e = q; el = "INTER0"; q->kn = r.range(1, 10); q->ks = r.range(1, 10); q->n = math::Vec<3>(1, 0, 0); x = {fe::V3(0, 0, 0), fe::V3(0, 0, 0)}; sup = {"tensor C"}; break; }
    default: { auto* q = new ElementINTER3; e = q; el = "INTER3"; q->kn = r.range(1, 10); q->ks = r.range(1, 10); x = {tet[0], tet[1], tet[2], tet[0], tet[1], tet[2]}; sup = {"tensor C", "tensor E"}; break; }
  }
  mon::note(el);
  s.createNodes((uint32)x.size()); for (size_t i = 0; i < x.size(); i++) for (int a = 0; a < 3; a++) s.getNode((uint32)i + 1).pos[a] = x[i][a];
  for (size_t i = 0; i < x.size(); i++) e->getNodeNumber((uint16)i) = (uint32)i + 1;
  s.addElement(e); s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); s.assembleGlobalEqMatrices();
  for (int round = 0; round < 2; round++) {
    std::vector<fe::V3> u(x.size()); for (size_t i = 0; i < x.size(); i++) for (size_t k = 0; k < t.size(); k++) { double v = r.range(-1, 1) * 1e-2; u[i][k] = v; (*s.getU())[s.getNodeDofEqNumber((uint32)i + 1, t[k]) - 1] = v; }
    s.updateResults();
    // independent constant gradient of a tetrahedron
    Eigen::Matrix3d X, dU; if (x.size() == 4 && kind < 2) { for (int i = 0; i < 3; i++) { X.row(i) = (x[i + 1] - x[0]).transpose(); dU.row(i) = (u[i + 1] - u[0]).transpose(); } vol = std::fabs(X.determinant()) / 6; }
    for (auto& q : all(e)) {
      if (!sup.count(q.name)) { refused(r, el, q, 1); continue; }
      D a = contract(r, el, q, GP_MEAN); mon::ev("means");
      if (q.name == "scalar VOL") mon::near(el + ".volume", a[0], vol, 1e-12 * vol, "volume");
      if (kind < 2) { D g0 = contract(r, el, q, 0); for (int i = 0; i < q.n; i++) mon::near(el + "." + q.name + ".mean", a[i], g0[i], 0, "mean of a constant state"); }
      if (t0) {
        Eigen::Matrix3d G = (X.inverse() * dU); // G(a,i) = du_i/dx_a
        if (q.name == "tensor C") for (int i = 0; i < 6; i++) { double w = IJ[i][0] == IJ[i][1] ? G(IJ[i][0], IJ[i][0]) : G(IJ[i][0], IJ[i][1]) + G(IJ[i][1], IJ[i][0]); mon::near(el + ".strain", a[i], w, 1e-11 / sc, "strain of the nodal displacements"); mon::ev("point_results"); }
        if (q.name == "tensor TSTRAIN") for (int i = 0; i < 6; i++) mon::near(el + ".thermal", a[i], IJ[i][0] == IJ[i][1] ? t0->alpha * t0->T : 0, 1e-14, "thermal strain");
        if (q.name == "tensor E") { double lam = t0->E * t0->my / ((1 + t0->my) * (1 - 2 * t0->my)), mu = t0->E / (2 * (1 + t0->my)), th = t0->alpha * t0->T; Eigen::Matrix3d ee = 0.5 * (G + G.transpose()) - th * Eigen::Matrix3d::Identity(); Eigen::Matrix3d S = lam * ee.trace() * Eigen::Matrix3d::Identity() + 2 * mu * ee;
          for (int i = 0; i < 6; i++) { mon::near(el + ".stress", a[i], S(IJ[i][0], IJ[i][1]), 1e-10 * (lam + mu) * (1 / sc + 1), "stress of the elastic strain"); mon::ev("point_results"); } }
      }
      if (kind >= 5) { // interfaces: components of the jump, and of the traction, on the diagonal
        int h = (int)x.size() / 2; fe::V3 n(1, 0, 0), j(0, 0, 0); if (kind == 6) { n = (x[1] - x[0]).cross(x[2] - x[0]); n /= n.norm(); }
        for (int i = 0; i < h; i++) j += (u[h + i] - u[i]) / h;
        double lim = 1e-8; if (q.name == "tensor E") { auto* w = static_cast<ElementINTER3*>(e); fe::V3 jn = n * n.dot(j); j = w->kn * jn + w->ks * (j - jn); lim = 1e-7; }
        for (int i = 0; i < 6; i++) { mon::near(el + "." + q.name + ".value", a[i], IJ[i][0] == IJ[i][1] ? j[IJ[i][0]] : 0, lim, q.name); mon::ev("interface_results"); }
      }
      if (t1 && q.n == 3) { Eigen::Vector3d g = X.inverse() * dU.col(0); for (int i = 0; i < 3; i++) { mon::near(el + "." + q.name + ".value", a[i], q.name == "vector GRADT" ? g[i] : -t1->k * g[i], 1e-11 * (t1->k + 1) / sc, q.name); mon::ev("point_results"); } }
    }
  }
  mon::ev("linear_" + el); mon::sig(el);
}
void run(Rng& r, uint64_t) { if (r.chance(0.5)) linear(r); else hyper(r); }
} // namespace
mon::Harness mon::harness() { return {"C10", 6000, 300000, run, nullptr}; }
