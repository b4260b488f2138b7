#include "hermite_ref.h"
// C13: semi-Lagrangian step.
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genGrid(c, D, 1, 3, 20, 7, 4);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  gc::LevelsetVelocity<G<D>, double> vel(*g);
  HermiteData h = genHermiteData(c, s);
  setPrev<D>(ls, s, h);
  setRest<D>(ls, s, genData(c));
  int steps = c.coin(1, 4) ? 2 : 1;
  bool moved = false, asym = false, ghost = false;
  PBT_NOTE(c, s.str() << " data kind " << h.d.kind << " scale " << h.d.scale);
  for (int t = 0; t < steps; ++t) {
    double dt = c.coin(1, 8) ? 0.0 : c.coin(1, 3) ? 1.0 : (c.coin(1, 4) ? -1 : 1) * (c.coin(1, 3) ? c.magnitude(-10, 5) : c.magnitude(-3, 2));
    int mode = c.weighted({4, 2, 1});  // arbitrary feet, near feet, still
    if (dt == 0) mode = 2;
    uint64_t seed = c.bits();
    Data gd = genData(c, -2, 1);
    double gs = dt == 0 ? 1 : c.real(0, 2) / fabs(dt);
    bool full = c.coin(1, 3), uniformGrad = c.coin(1, 6);
    PBT_NOTE(c, "; dt " << dt << " feet mode " << mode << " gradient scale " << gs);
    s.padded([&](int i, int j, int k) {  // ghosts get values that must not matter
      V3 v(3, -2, 5);
      M3 m;
      for (int q = 0; q < 9; ++q) m[q] = 7;
      vel.velocity()(i, j, k) = v;
      vel.velocityGradient()(i, j, k) = m;
    });
    s.interior([&](int i, int j, int k) {
      int id[3] = {i, j, k};
      long cell[3] = {0, 0, 0};
      LD u[3] = {0, 0, 0};
      V3 v(0, 0, 0);
      for (int a = 0; a < D; ++a) {
        uint64_t r = pbt::hash64(pbt::hash64(seed, key(i, j, k)), a);
        if (mode == 0)
          cell[a] = -s.pad + (long)(r % (uint64_t)(s.n[a] + 2 * s.pad - 1));
        else
          cell[a] = id[a] - (long)((r >> 7) & 1);
        cell[a] = std::max<long>(-s.pad, std::min<long>(cell[a], s.n[a] + s.pad - 2));
        u[a] = (LD)((r >> 20) & 0xffffff) / 16777216.0L;
        if ((r >> 50) % 9 == 0) u[a] = 0;
      }
      V3 f = pointIn<D>(s, cell, u);
      for (int a = 0; a < D; ++a) v[a] = mode == 2 ? (dt == 0 ? 1.5 * (a + 1) : 0.0) : (double)((s.node(a, id[a]) - (LD)f[a]) / dt);
      for (int a = D; a < 3; ++a) v[a] = full ? 0.25 : 0;
      vel.velocity()(i, j, k) = v;
      M3 m;
      long kk = uniformGrad ? 0 : key(i, j, k);
      for (int r = 0; r < 3; ++r)
        for (int q = 0; q < 3; ++q) m(r, q) = (r < D && q < D) || full ? gs * gd(kk, r * 3 + q) / gd.scale : 0.0;
      vel.velocityGradient()(i, j, k) = m;
    });
    // reference state: what the library holds as previous step right now
    std::vector<double> P;
    long n1 = s.n[1] + 2 * s.p(1), n2 = s.n[2] + 2 * s.p(2);
    auto at = [&](int i, int j, int k) { return ((i + s.p(0)) * n1 + (j + s.p(1))) * n2 + (k + s.p(2)); };
    const int M = 1 << D;
    P.resize(s.slots() * M);
    s.padded([&](int i, int j, int k) {
      double *p = &P[at(i, j, k) * M];
      p[0] = ls.phiPrev()(i, j, k);
      for (int a = 0; a < D; ++a) p[1 << a] = ls.psiPrev()(i, j, k)[a];
      for (int m = 1; m < M; ++m)
        if (m & (m - 1)) p[m] = ls.phiMixedDerivativesPrev()(i, j, k)[mixedSlot(m)];
    });
    auto data = [&](int i, int j, int k, int m) { return (LD)P[at(i, j, k) * M + m]; };
    auto prev = prevSnapshot<D>(ls);
    auto v0 = snapshot(vel.velocity()), g0 = snapshot(vel.velocityGradient()), gp = ghostSnapshot(ls.phi(), s), gq = ghostSnapshot(ls.psi(), s), mx = snapshot(ls.phiMixedDerivatives());
    typedef GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>> SL;
    if (c.coin(1, 4))
      SL().compute(dt, vel, ls);
    else
      gc::Temporal<double, G<D>, SL>::compute(dt, vel, ls);
    PBT_CHECK(sameBits(prev, prevSnapshot<D>(ls)), "semi-Lagrangian step changed a previous-step field for " << s.str());
    PBT_CHECK(sameBits(v0, snapshot(vel.velocity())) && sameBits(g0, snapshot(vel.velocityGradient())), "semi-Lagrangian step changed the velocity");
    PBT_CHECK(sameBits(gp, ghostSnapshot(ls.phi(), s)) && sameBits(gq, ghostSnapshot(ls.psi(), s)), "semi-Lagrangian step changed ghost cells of the result for " << s.str());
    PBT_CHECK(sameBits(mx, snapshot(ls.phiMixedDerivatives())), "semi-Lagrangian step changed mixed derivatives");
    s.interior([&](int i, int j, int k) {
      int id[3] = {i, j, k};
      V3 f(0, 0, 0);
      const V3 &v = vel.velocity()(i, j, k);
      const M3 &m = vel.velocityGradient()(i, j, k);
      for (int a = 0; a < D; ++a) {
        f[a] = (double)(s.node(a, id[a]) - (LD)v[a] * dt);
        LD off = (s.node(a, id[a]) - (LD)f[a]) / s.dx(a);
        if (fabsl(off) > 1e-6L) moved = true;
        if ((LD)f[a] < s.node(a, 0) || (LD)f[a] > s.node(a, s.n[a] - 1)) ghost = true;
      }
      RefEval w = refEval<D>(s, data, f);
      PBT_CHECK(pbt::close(ls.phi()(i, j, k), w.val, 2 * w.tolV), "value at cell (" << i << "," << j << "," << k << ") is " << ls.phi()(i, j, k) << ", interpolant at the foot (" << f << ") is " << w.val << " (tolerance " << w.tolV << ") for "
                                                                     << s.str());
      for (int a = 0; a < D; ++a) {
        LD want = 0, tol = 1e-290L;
        for (int r = 0; r < D; ++r) {
          LD e = (r == a ? 1 : 0) - (LD)dt * m(r, a);
          want += e * w.grad[r];
          LD ea = (r == a ? 1 : 0) + fabsl((LD)dt * m(r, a));
          tol += ea * (2 * w.tolG[r] + 32 * EPS * fabsl(w.grad[r]));
          if (r != a && m(r, a) != m(a, r)) asym = true;
        }
        PBT_CHECK(pbt::close(ls.psi()(i, j, k)[a], want, tol), "gradient axis " << a << " at cell (" << i << "," << j << "," << k << ") is " << ls.psi()(i, j, k)[a] << ", expected " << want << " (tolerance " << tol << ") dt " << dt << " for "
                                                                                << s.str());
      }
      if (!full)
        for (int a = D; a < 3; ++a) PBT_CHECK(ls.psi()(i, j, k)[a] == 0, "gradient along missing axis " << a << " is " << ls.psi()(i, j, k)[a]);
    });
    if (t + 1 < steps) {
      ls.phiPrev() = ls.phi();
      ls.psiPrev() = ls.psi();
      if (c.coin()) ls.phiMixedDerivativesPrev() = ls.phiMixedDerivatives();
      c.label("second step");
    }
  }
  if (ghost) c.label("feet beyond the outermost interior node");
  if (asym) c.label("non-symmetric velocity gradient");
  c.label(PBT_STR(D << "D"));
  if (moved && (D == 1 || asym)) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(4)) {
    case 0: return run<1>(c);
    case 1:
    case 2: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C13", "random state, feet anywhere in the padded hull, velocities derived from feet, arbitrary velocity gradients; non-trivial: some foot off its node and (2D/3D) a non-symmetric velocity gradient", prop)
