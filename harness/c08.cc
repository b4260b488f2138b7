#include "gals_gen.h"
// C08: linear interpolation in 1D.
static void prop(Ctx &c)
{
  GridSpec s = genGrid(c, 1, 0, 4, 60);
  if (s.n[0] + 2 * s.pad < 2) s.n[0] = 2;
  bool other = c.coin();
  auto g = makeGrid<1>(s);
  GridSpec q = s;
  if (other) {
    q = genGrid(c, 1, 0, 3, 60);
    c.label("query array on another grid");
  }
  auto gq = makeGrid<1>(q);
  bool affine = c.coin(1, 3);
  Data d = genData(c, -3, 3), o0 = genData(c);
  double A = c.signedReal(4), B = c.signedReal(4);
  gc::Array<G<1>, double> f(*g), res(*gq);
  gc::Array<G<1>, V3> x(*gq);
  auto value = [&](int i) -> double {
    if (!affine) return d(key(i, 0, 0), 0);
    return (double)(A + B * ((LD)i + 0.5L) / s.n[0]);
  };
  s.padded([&](int i, int j, int k) { f(i, j, k) = value(i); });
  fill(res, q, o0);
  std::vector<long> cell(q.n[0]);
  std::vector<LD> etas(q.n[0]);
  bool ghost = false, atnode = false;
  uint64_t seed = c.bits();
  int mode = (int)c.draw(4);
  PBT_NOTE(c, s.str() << " query " << q.str() << (affine ? " affine" : "") << " data kind " << d.kind);
  q.padded([&](int i, int j, int k) { x(i, j, k) = V3(1e3, 5, -7); });
  for (int i = 0; i < q.n[0]; ++i) {
    uint64_t r = pbt::hash64(seed, i);
    long b = -s.pad + (long)(r % (uint64_t)(s.n[0] + 2 * s.pad - 1));
    double u;
    switch (mode) {
      case 0: u = 0.5; break;
      case 1: u = (double)((r >> 20) % 9) / 8.0; break;
      default: u = (double)((r >> 13) & 0xffffff) / 16777216.0; break;
    }
    // stay strictly inside the padded hull
    LD et = s.etaTol(0) * 4 + 1e-9L;
    if (b == -s.pad && u < et) u = (double)et;
    if (b == s.n[0] + s.pad - 2 && u > 1 - et) u = (double)(1 - et);
    x(i, 0, 0) = V3((double)(s.node(0, b) + u * s.dx(0)), (double)(r & 7), -1.0);
    if (b < 0 || b >= s.n[0] - 1) ghost = true;
    if (u == 0 || u == 1) atnode = true;
  }
  auto f0 = snapshot(f), x0 = snapshot(x), gh = ghostSnapshot(res, q);
  if (c.coin(1, 4))
    GALS::INTERPOLATION::Linear<double, G<1>>().compute(x, f, res);
  else
    gc::Interpolate<double, G<1>, GALS::INTERPOLATION::Linear<double, G<1>>>::compute(x, f, res);
  PBT_CHECK(sameBits(f0, snapshot(f)) && sameBits(x0, snapshot(x)), "field or query points changed for " << s.str());
  PBT_CHECK(sameBits(gh, ghostSnapshot(res, q)), "ghost cells of the result changed");
  GALS::INTERPOLATION::Linear<double, G<1>> lin;
  for (int i = 0; i < q.n[0]; ++i) {
    LD pos = ((LD)x(i, 0, 0)[0] - s.node(0, 0)) / s.dx(0);
    long b = (long)floorl(pos);
    b = std::max<long>(-s.pad, std::min<long>(b, s.n[0] + s.pad - 2));
    LD eta = pos - b;
    LD a0 = value((int)b), a1 = value((int)b + 1);
    LD want = (1 - eta) * a0 + eta * a1;
    // conditioning: eta uncertain by etaTol; near a node the neighbouring cell's line may be used as well
    LD slope = fabsl(a1 - a0), sc = fabsl(a0) + fabsl(a1);
    LD tolEta = 4 * s.etaTol(0);
    if (eta < tolEta && b > -s.pad) slope = std::max(slope, fabsl((LD)value((int)b - 1) - a0)), sc += fabsl((LD)value((int)b - 1));
    if (eta > 1 - tolEta && b + 2 < s.n[0] + s.pad) slope = std::max(slope, fabsl((LD)value((int)b + 2) - a1)), sc += fabsl((LD)value((int)b + 2));
    LD tol = tolEta * 2 * slope + 32 * EPS * sc + 1e-290L;
    double got = res(i, 0, 0);
    PBT_CHECK(pbt::close(got, want, tol), "linear interpolation at point " << i << " x=" << x(i, 0, 0)[0] << " gives " << got << ", expected " << want << " between " << a0 << " and " << a1 << " for " << s.str());
    PBT_CHECK(got <= std::max(a0, a1) + tol && got >= std::min(a0, a1) - tol, "linear interpolation leaves the range of its neighbours");
    if (affine) {
      LD ex = A + B * (((LD)x(i, 0, 0)[0] - s.lo[0]) / ((LD)s.hi[0] - s.lo[0]));
      PBT_CHECK(pbt::close(got, ex, tol + 64 * EPS * (fabsl((LD)A) + fabsl((LD)B) * (1 + s.pad))), "affine field not reproduced: " << got << " vs " << ex << " for " << s.str());
    }
    double single = lin.linearInterpolation(*g, x(i, 0, 0), f);
    PBT_CHECK(pbt::close(single, got, 2 * tol), "bulk result differs from the single-point result at index " << i);
  }
  if (ghost) c.label("ghost cells");
  if (atnode) c.label("at nodes");
  if (affine) c.label("affine");
  if (ghost || other) c.nontrivial();
}
PBT_MAIN("C08", "random 1D grids, data and query arrays (same or another grid); non-trivial: a query in a ghost cell or queries stored on another grid", prop)
