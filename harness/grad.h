#include "gals_gen.h"
// C06/C07: gradient stencils.  SCHEME 2: second-order central, 3: third-order biased.
template <int D, int SCHEME>
struct Sel;
template <int D>
struct Sel<D, 2> {
  typedef gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>> type;
  typedef gc::SecondOrderCentral<double, G<D>> raw;
};
template <int D>
struct Sel<D, 3> {
  typedef gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>> type;
  typedef gc::ThirdOrder<double, G<D>> raw;
};
template <int SCHEME>
static void stencil(LD fm2, LD fm1, LD f0, LD fp1, LD dx, LD &val, LD &scale)
{
  if (SCHEME == 2) {
    val = (fp1 - fm1) / (2 * dx);
    scale = (fabsl(fp1) + fabsl(fm1)) / dx;
  } else {
    val = (2 * fp1 + 3 * f0 - 6 * fm1 + fm2) / (6 * dx);
    scale = (fabsl(fp1) + fabsl(f0) + fabsl(fm1) + fabsl(fm2)) / dx;
  }
}
// polynomial of degree <= deg per axis, evaluated in coordinates local to the box
struct Poly {
  double co[3][4];
  double mix;
  int deg;
  LD val(const LD *t, int D) const
  {
    LD s = 0, pr = 1;
    for (int a = 0; a < D; ++a) {
      LD p = 0, w = 1;
      for (int q = 0; q <= deg; ++q, w *= t[a]) p += co[a][q] * w;
      s += p, pr *= p;
    }
    return s + mix * pr;
  }
  LD bound(const LD *t, int D) const
  {  // magnitude of the terms that are summed
    LD s = 0, pr = 1;
    for (int a = 0; a < D; ++a) {
      LD p = 0, w = 1;
      for (int q = 0; q <= deg; ++q, w *= fabsl(t[a])) p += fabs(co[a][q]) * w;
      s += p, pr *= p;
    }
    return s + fabs(mix) * pr;
  }
  LD der(const LD *t, int D, int ax) const
  {
    LD pr = 1, d = 0;
    for (int a = 0; a < D; ++a) {
      LD p = 0, w = 1;
      for (int q = 0; q <= deg; ++q, w *= t[a]) p += co[a][q] * w;
      if (a != ax) pr *= p;
    }
    LD w = 1;
    for (int q = 1; q <= deg; ++q, w *= t[ax]) d += q * co[ax][q] * w;
    return d + mix * pr * d;
  }
};
template <int D, int SCHEME>
static void run(Ctx &c)
{
  const int need = SCHEME == 2 ? 1 : 2;
  GridSpec s = genGrid(c, D, need, 4, 40, 14, 6);
  auto g = makeGrid<D>(s);
  bool vec = c.coin();
  bool poly = c.coin(1, 4);
  Data d = genData(c, -3, 3), out0 = genData(c);
  Poly P[3];
  if (poly)
    for (auto &p : P) {
      p.deg = SCHEME;
      for (auto &r : p.co)
        for (auto &x : r) x = c.integer(-3, 3);
      p.mix = c.coin() ? c.integer(-2, 2) : 0;
    }
  auto value = [&](int i, int j, int k, int cmp) -> double {
    if (!poly) return d(key(i, j, k), cmp);
    int id[3] = {i, j, k};
    LD t[3] = {0, 0, 0};
    for (int a = 0; a < D; ++a) t[a] = ((LD)id[a] + 0.5L) / s.n[a];
    return (double)(d.scale * P[cmp].val(t, D));
  };
  PBT_NOTE(c, s.str() << (vec ? " vector" : " scalar") << " data " << (poly ? "polynomial" : "kind ") << (poly ? 0 : d.kind) << " scale " << d.scale);
  int nc = vec ? D : 1;
  bool useRaw = c.coin(1, 4);
  gc::Array<G<D>, double> f(*g);
  gc::Array<G<D>, V3> fv(*g), gs(*g);
  gc::Array<G<D>, M3> gv(*g);
  s.padded([&](int i, int j, int k) {
    f(i, j, k) = value(i, j, k, 0);
    for (int a = 0; a < 3; ++a) fv(i, j, k)[a] = value(i, j, k, a);
  });
  fill(gs, s, out0, 0);
  fill(gv, s, out0, 8);
  auto f0 = snapshot(f), fv0 = snapshot(fv), gg = ghostSnapshot(gs, s), gm = ghostSnapshot(gv, s), gs0 = snapshot(gs), gv0 = snapshot(gv);
  typedef typename Sel<D, SCHEME>::type GR;
  typedef typename Sel<D, SCHEME>::raw RAW;
  int reps = 1 + (int)c.coin(1, 5);
  for (int r = 0; r < reps; ++r) {
    if (vec) {
      if (useRaw)
        RAW().compute(fv, gv);
      else
        GR::compute(fv, gv);
    } else {
      if (useRaw)
        RAW()(f, gs);
      else
        GR::compute(f, gs);
    }
  }
  PBT_CHECK(sameBits(f0, snapshot(f)) && sameBits(fv0, snapshot(fv)), "input field changed for " << s.str());
  PBT_CHECK(sameBits(gg, ghostSnapshot(gs, s)) && sameBits(gm, ghostSnapshot(gv, s)), "ghost cells of the output changed for " << s.str());
  PBT_CHECK(sameBits(vec ? gs0 : gv0, vec ? snapshot(gs) : snapshot(gv)), "unrelated field changed");
  bool variation = false;
  s.interior([&](int i, int j, int k) {
    for (int cmp = 0; cmp < nc; ++cmp)
      for (int a = 0; a < D; ++a) {
        int e[3] = {a == 0, a == 1, a == 2};
        auto at = [&](int m) { return (LD)value(i + m * e[0], j + m * e[1], k + m * e[2], cmp); };
        LD want, scale;
        stencil<SCHEME>(SCHEME == 3 ? at(-2) : 0, at(-1), at(0), at(1), s.dx(a), want, scale);
        double got = vec ? gv(i, j, k)(cmp, a) : gs(i, j, k)[a];
        LD tol = (64 * EPS + s.posTol(a) / s.dx(a)) * scale + 1e-290L;
        PBT_CHECK(pbt::close(got, want, tol), (SCHEME == 2 ? "second" : "third") << "-order gradient of " << (vec ? "vector component " : "scalar ") << cmp << " along axis " << a << " at cell (" << i
                                                                              << "," << j << "," << k << ") is " << got << ", expected " << want << " for " << s.str());
        if (want != 0) variation = true;
        if (poly) {
          int id[3] = {i, j, k};
          LD t[3] = {0, 0, 0};
          for (int b = 0; b < D; ++b) t[b] = ((LD)id[b] + 0.5L) / s.n[b];
          LD exact = d.scale * P[cmp].der(t, D, a) / ((LD)s.hi[a] - s.lo[a]);
          LD tp = (256 * EPS + s.posTol(a) / s.dx(a)) * (scale + d.scale * P[cmp].bound(t, D) / s.dx(a)) + 1e-290L;
          PBT_CHECK(pbt::close(got, exact, tp), "not exact for a degree-" << SCHEME << " polynomial: axis " << a << " component " << cmp << " at (" << i << "," << j << "," << k << "): " << got << " vs " << exact
                                                                           << " for " << s.str());
        }
      }
  });
  c.label(PBT_STR(D << "D " << (vec ? "vector" : "scalar")));
  if (poly) c.label("polynomial");
  if (variation && (D == 1 || s.n[0] != s.n[1] || s.dx(0) != s.dx(1))) c.nontrivial();
}
template <int SCHEME>
static void gradProp(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1, SCHEME>(c);
    case 1: return run<2, SCHEME>(c);
    default: return run<3, SCHEME>(c);
  }
}
