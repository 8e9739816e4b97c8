// Hyper-dual numbers in long double: exact first and second derivatives of an energy, independent of any hand-derived stress or tangent.
#pragma once
#include <cmath>
struct HD {
  long double f, a, b, ab;
  HD(long double f_ = 0, long double a_ = 0, long double b_ = 0, long double ab_ = 0) : f(f_), a(a_), b(b_), ab(ab_) {}
};
inline HD operator+(const HD& x, const HD& y) { return HD(x.f + y.f, x.a + y.a, x.b + y.b, x.ab + y.ab); }
inline HD operator-(const HD& x, const HD& y) { return HD(x.f - y.f, x.a - y.a, x.b - y.b, x.ab - y.ab); }
inline HD operator*(const HD& x, const HD& y) { return HD(x.f * y.f, x.a * y.f + x.f * y.a, x.b * y.f + x.f * y.b, x.ab * y.f + x.a * y.b + x.b * y.a + x.f * y.ab); }
inline HD powr(const HD& x, long double p) {
  long double f = powl(x.f, p), d = p * powl(x.f, p - 1), dd = p * (p - 1) * powl(x.f, p - 2);
  return HD(f, d * x.a, d * x.b, d * x.ab + dd * x.a * x.b);
}
// strain energy of the shipped hyperelastic models in terms of the isochoric invariants
struct Hyper {
  int kind; double c[5]; // 0: G K, 1: C10 C20 C30 C01 K, 2: C10 C01 K
  static const char* name(int k) { return k == 0 ? "Neo-Hookean" : k == 1 ? "Biderman" : "Mooney-Rivlin"; }
  static int nc(int k) { return k == 0 ? 2 : k == 1 ? 5 : 3; }
  double K() const { return c[nc(kind) - 1]; }
  HD W(HD i1, HD i2) const {
    i1 = i1 - HD(3); i2 = i2 - HD(3);
    if (kind == 0) return HD(0.5L * c[0]) * i1;
    if (kind == 1) return HD(c[0]) * i1 + HD(c[1]) * i1 * i1 + HD(c[2]) * i1 * i1 * i1 + HD(c[3]) * i2;
    return HD(c[0]) * i1 + HD(c[1]) * i2;
  }
  // C in order XX XY XZ YY YZ ZZ; isochoric energy and J
  HD iso(const HD* C, HD& J, HD* I1 = nullptr, HD* I2 = nullptr) const {
    HD i1 = C[0] + C[3] + C[5];
    HD i2 = C[0] * C[3] + C[3] * C[5] + C[0] * C[5] - C[1] * C[1] - C[4] * C[4] - C[2] * C[2];
    HD i3 = C[0] * (C[3] * C[5] - C[4] * C[4]) - C[1] * (C[1] * C[5] - C[4] * C[2]) + C[2] * (C[1] * C[4] - C[3] * C[2]);
    J = powr(i3, 0.5L);
    HD a = i1 * powr(i3, -1.0L / 3), b = i2 * powr(i3, -2.0L / 3);
    if (I1) *I1 = i1; if (I2) *I2 = i2;
    return W(a, b);
  }
};
