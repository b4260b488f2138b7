// Long double rendition of the published three-case limiter, with an explicit set of acceptable outcomes near ties.
#pragma once
#include "hermite_ref.h"
struct Ctl {
  LD c[4];
};
struct LimitSet {
  std::vector<Ctl> ok;  // acceptable control values
  LD scale;             // magnitude entering the computation
  int branch;           // branch of the exact arithmetic (0: unlimited)
  bool certain;
};
inline int sgnBand(LD v, LD tol) { return v > tol ? 1 : v < -tol ? -1 : 0; }
inline bool isPow2(LD v)
{
  int e;
  return v > 0 && frexpl(v, &e) == 0.5L;
}
// 3-valued sign of a product of two factors: 1, -1, 0 = undecided
inline LimitSet limitRef(LD p0, LD s0, LD p1, LD s1, LD dx, bool limit)
{
  LimitSet r;
  LD D1 = s0 * dx, D2 = s1 * dx, D5 = p1 - p0;
  r.scale = fabsl(p0) + fabsl(p1) + fabsl(D1) + fabsl(D2);
  Ctl u = {{p0, p0 + D1 / 3, p1 - D2 / 3, p1}};
  r.branch = 0, r.certain = true;
  if (!limit) {
    r.ok.push_back(u);
    return r;
  }
  LD D3 = 1.5L * (u.c[2] - p0), D4 = 1.5L * (p1 - u.c[1]);
  LD tol = 64 * EPS * r.scale;
  Ctl a = u, b = u, l = u;
  a.c[2] = 2 * u.c[1] - p0;
  b.c[1] = 2 * u.c[2] - p1;
  l.c[1] = (2 * p0 + p1) / 3, l.c[2] = (2 * p1 + p0) / 3;
  // a flat edge with one zero end slope is decided exactly in any arithmetic
  if (p0 == p1 && (s0 == 0 || s1 == 0)) {
    // the factor (slope - D5) is exactly zero: case 3, the straight line (which is also cases 1/2 when both slopes vanish).
    r.branch = 3;
    r.ok.push_back(l);
    return r;
  }
  int f1 = sgnBand(D1 - D3, tol) * 1, f2 = sgnBand(D1 - D5, tol), f3 = sgnBand(D2 - D4, tol), f4 = sgnBand(D2 - D5, tol);
  auto tri = [](int x, int y) { return x == 0 || y == 0 ? 0 : x * y; };
  int t1 = tri(f1, f2), t2 = tri(f3, f4), t3 = tri(f2, f4);
  auto br = [&]() { return (D1 - D3) * (D1 - D5) < 0 ? 1 : (D2 - D4) * (D2 - D5) < 0 ? 2 : (D1 - D5) * (D2 - D5) <= 0 ? 3 : 0; };
  r.branch = br();
  // data for which every quantity of the limiter is exact in double arithmetic: ties are decided, not tolerated
  if (r.scale > 0 && isPow2(dx)) {
    LD q = ldexpl(1, ilogbl(r.scale) - 24);
    auto whole = [&](LD v) { return v == q * rintl(v / q); };
    auto third = [&](LD v) { return v == 3 * q * rintl(v / 3 / q); };
    if (whole(p0) && whole(p1) && third(D1) && third(D2)) {
      r.ok.push_back(r.branch == 1 ? a : r.branch == 2 ? b : r.branch == 3 ? l : u);
      return r;
    }
  }
  r.certain = t1 < 0 || (t1 > 0 && (t2 < 0 || (t2 > 0 && t3 != 0)));
  if (t1 <= 0) r.ok.push_back(a);
  if (t1 >= 0) {
    if (t2 <= 0) r.ok.push_back(b);
    if (t2 >= 0) {
      if (t3 <= 0) r.ok.push_back(l);
      if (t3 >= 0) r.ok.push_back(u);
    }
  }
  return r;
}
inline LD bern(const LD *c, LD t) { LD s = 1 - t; return c[0] * s * s * s + 3 * c[1] * t * s * s + 3 * c[2] * t * t * s + c[3] * t * t * t; }
inline LD bernD(const LD *c, LD t)
{
  LD s = 1 - t;
  return 3 * ((c[1] - c[0]) * s * s + 2 * (c[2] - c[1]) * s * t + (c[3] - c[2]) * t * t);
}
