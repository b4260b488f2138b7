#include "gals_gen.h"
// C12: explicit Euler step.
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genGrid(c, D, 0, 3, 40, 12, 6);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  gc::LevelsetVelocity<G<D>, double> vel(*g);
  Data d[9];
  for (auto &x : d) x = genData(c);
  fill(ls.phi(), s, d[0]), fill(ls.psi(), s, d[1]), fill(ls.phiMixedDerivatives(), s, d[2]);
  fill(ls.phiPrev(), s, d[3]), fill(ls.psiPrev(), s, d[4]), fill(ls.phiMixedDerivativesPrev(), s, d[5]);
  fill(ls.phiInterpPrev(), s, d[6]), fill(ls.psiInterpPrev(), s, d[7]);
  fill(vel.velocity(), s, d[8]), fill(vel.velocityGradient(), s, d[7], 20);
  int steps = 1 + (int)c.draw(4);
  bool nz = false;
  PBT_NOTE(c, s.str() << " steps " << steps << " data kinds " << d[3].kind << "," << d[8].kind);
  for (int t = 0; t < steps; ++t) {
    double dt = 0;
    switch (c.draw(5)) {
      case 0: dt = 0; break;
      case 1: dt = 1; break;
      case 2: dt = -c.magnitude(-3, 2); break;
      default: dt = c.magnitude(-6, 3); break;
    }
    PBT_NOTE(c, "; dt " << dt);
    auto prev = snapshot(ls.phiPrev()), psi = snapshot(ls.psi()), psiP = snapshot(ls.psiPrev()), mix = snapshot(ls.phiMixedDerivatives()), mixP = snapshot(ls.phiMixedDerivativesPrev());
    auto v = snapshot(vel.velocity()), vg = snapshot(vel.velocityGradient()), gh = ghostSnapshot(ls.phi(), s);
    if (c.coin(1, 4))
      GALS::TEMPORAL_SCHEMES::Euler<double, G<D>>().compute(dt, vel, ls);
    else if (c.coin(1, 3))
      gc::Temporal<double, G<D>>::compute(dt, vel, ls);
    else
      gc::Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::Euler<double, G<D>>>::compute(dt, vel, ls);
    PBT_CHECK(sameBits(prev, snapshot(ls.phiPrev())), "Euler step changed the previous values");
    PBT_CHECK(sameBits(psi, snapshot(ls.psi())) && sameBits(psiP, snapshot(ls.psiPrev())), "Euler step changed a gradient");
    PBT_CHECK(sameBits(mix, snapshot(ls.phiMixedDerivatives())) && sameBits(mixP, snapshot(ls.phiMixedDerivativesPrev())), "Euler step changed mixed derivatives");
    PBT_CHECK(sameBits(v, snapshot(vel.velocity())) && sameBits(vg, snapshot(vel.velocityGradient())), "Euler step changed the velocity");
    PBT_CHECK(sameBits(gh, ghostSnapshot(ls.phi(), s)), "Euler step changed ghost cells for " << s.str());
    s.interior([&](int i, int j, int k) {
      LD p = ls.phiPrev()(i, j, k), u = vel.velocity()(i, j, k)[0], want = p - (LD)dt * u;
      double got = ls.phi()(i, j, k);
      PBT_CHECK(pbt::close(got, want, 8 * EPS * (fabsl(p) + fabsl((LD)dt * u)) + 1e-300L), "Euler step at (" << i << "," << j << "," << k << ") gives " << got << ", expected " << want << " (previous " << p << ", dt " << dt << ", velocity " << u
                                                                                                 << ") for " << s.str());
      if ((LD)dt * u != 0) nz = true;
    });
    if (c.coin()) ls.phiPrev() = ls.phi();
    if (c.coin(1, 3)) {
      Data nd = genData(c);
      fill(vel.velocity(), s, nd);
    }
  }
  c.label(PBT_STR(D << "D"));
  if (nz && s.slots() > 1) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C12", "random grids/state/velocities, 1-4 steps with dt zero, negative, small, large; non-trivial: dt*velocity non-zero somewhere on a grid with more than one slot", prop)
