// Random models of shipped linear elements (trusses, tetrahedra, heat quads), described independently of numbering.
#pragma once
#include "fe.h"
namespace fe {
struct Phys { std::vector<V3> pos; struct E { int type; std::vector<int> n; double a, b, c, d; }; std::vector<E> els; };

inline Phys randPhys(mon::Rng& r, int family) {
  Phys p;
  if (family == 0) { // truss cloud
    int n = (int)r.irange(4, 14);
    for (int i = 0; i < n; i++) p.pos.push_back(V3(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)));
    int ne = (int)r.irange(3, 25);
    for (int i = 0; i < ne; i++) { int a = (int)r.irange(0, n - 1), b; do b = (int)r.irange(0, n - 1); while (b == a); p.els.push_back({0, {a, b}, r.logrange(1, 1e6), r.range(0.1, 3), 0, 0}); }
  } else if (family == 1 || family == 2 || family == 4) { // solid tetra strips: TETRA0 / TETRA1 / mixed with trusses
    int nx = (int)r.irange(1, 2), ny = 1, nz = (int)r.irange(1, 2);
    auto id = [&](int i, int j, int k) { return (i * (ny + 1) + j) * (nz + 1) + k; };
    for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int k = 0; k <= nz; k++) p.pos.push_back(V3(i + r.range(-.15, .15), j + r.range(-.15, .15), k + r.range(-.15, .15)));
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) {
      int c[8] = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
      int t[5][4] = {{0, 1, 2, 5}, {0, 2, 3, 7}, {0, 5, 7, 4}, {2, 7, 5, 6}, {0, 2, 7, 5}};
      double E = r.range(1, 100), nu = r.range(0, .45), al = r.range(0, .01), T = r.range(-50, 50);
      for (auto& q : t) p.els.push_back({family == 2 ? 2 : 1, {c[q[0]], c[q[1]], c[q[2]], c[q[3]]}, E, nu, al, T});
    }
    if (family == 4) for (int i = 0; i < 5; i++) { int n = (int)p.pos.size(); int a = (int)r.irange(0, n - 1), b; do b = (int)r.irange(0, n - 1); while (b == a); p.els.push_back({0, {a, b}, r.range(1, 50), 1.0, 0, 0}); }
  } else { // heat quads with surface elements on the edges
    int nx = (int)r.irange(1, 4), ny = (int)r.irange(1, 4);
    auto id = [&](int i, int j) { return i * (ny + 1) + j; };
    for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) p.pos.push_back(V3(i + r.range(-.2, .2), j + r.range(-.2, .2), 0));
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) p.els.push_back({3, {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)}, r.range(1, 10), r.range(.1, 5), r.range(.1, 5), r.range(-3, 3)});
    for (int i = 0; i < nx; i++) if (r.chance(0.6)) p.els.push_back({4, {id(i, 0), id(i + 1, 0)}, r.range(-4, 4), r.range(.1, 6), r.range(1, 30), 0});
  }
  return p;
}
inline Element* mk(FEStorage& s, const Phys::E& e) {
  switch (e.type) {
    case 0: { auto* x = new ElementTRUSS3; x->E = e.a; x->A = e.b; s.addElement(x); return x; }
    case 1: { auto* x = new ElementTETRA0; x->E = e.a; x->my = e.b; x->alpha = e.c; x->T = e.d; s.addElement(x); return x; }
    case 2: { auto* x = new ElementTETRA1; x->k = e.a; s.addElement(x); return x; }
    case 3: { auto* x = new ElementQUADTH; x->k = e.a; x->rho = e.b; x->c = e.c; x->volFlux = e.d; s.addElement(x); return x; }
    default: { auto* x = new SurfaceLINETH; x->flux = e.a; x->htc = e.b; x->etemp[0] = e.c; x->etemp[1] = e.c; s.addElement(x); return x; }
  }
}
} // namespace fe
