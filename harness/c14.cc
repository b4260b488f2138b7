#include "hermite_ref.h"
// C14: advection is exact where the scheme is exact.
struct TPoly {  // tensor polynomial of degree <= 3 per axis in box-local coordinates
  int D;
  double co[64];
  LD lo[3], ext[3];
  // derivative (mask) at position x
  LD eval(const LD *x, int mask, bool absval = false) const
  {
    LD pw[3][4];
    for (int a = 0; a < 3; ++a) {
      LD t = a < D ? (x[a] - lo[a]) / ext[a] - 0.5L : 0;
      if (absval) t = fabsl(t) + 0.5L;
      bool der = (mask >> a) & 1;
      for (int e = 0; e < 4; ++e) pw[a][e] = der ? (e == 0 ? 0 : e * powl(t, e - 1)) : powl(t, e);
      if (der)
        for (int e = 0; e < 4; ++e) pw[a][e] /= ext[a];
    }
    LD s = 0;
    int n1 = D > 1 ? 4 : 1, n2 = D > 2 ? 4 : 1;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < n1; ++j)
        for (int k = 0; k < n2; ++k) {
          LD m = co[(i * 4 + j) * 4 + k];
          if (m == 0) continue;
          s += (absval ? fabsl(m) : m) * pw[0][i] * (D > 1 ? pw[1][j] : 1) * (D > 2 ? pw[2][k] : 1);
        }
    return s;
  }
};
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genGrid(c, D, 1, 2, 16, 6, 4);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  gc::LevelsetVelocity<G<D>, double> vel(*g);
  typedef GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>> SL;
  typedef gc::Temporal<double, G<D>, SL> Step;
  setRest<D>(ls, s, genData(c));
  bool affineFlow = c.coin(2, 5);
  TPoly p;
  p.D = D;
  for (int q = 0; q < 64; ++q) p.co[q] = 0;
  for (int a = 0; a < 3; ++a) p.lo[a] = s.lo[a], p.ext[a] = (LD)s.hi[a] - s.lo[a];
  double A[3][3] = {{0}}, b[3] = {0, 0, 0};
  double dt;
  bool still = false, numGrad = false;
  if (affineFlow) {
    // affine level set, affine velocity
    p.co[0] = c.integer(-3, 3);
    const int lin[3] = {16, 4, 1};
    for (int a = 0; a < D; ++a) p.co[lin[a]] = c.integer(-4, 4);
    for (int r = 0; r < D; ++r) {
      for (int q = 0; q < D; ++q) A[r][q] = c.integer(-3, 3) * (double)p.ext[r] / (double)p.ext[q];
      b[r] = c.signedReal(2) * (double)p.ext[r];
    }
    numGrad = c.coin();
    dt = (c.coin(1, 4) ? c.magnitude(-8, 3) : c.magnitude(-2, 1)) * (c.coin(1, 5) ? -1 : 1);
  } else {
    int terms = 1 + (int)c.draw(6);
    for (int q = 0; q < terms; ++q) p.co[(c.draw(4) * 4 + (D > 1 ? c.draw(4) : 0)) * 4 + (D > 2 ? c.draw(4) : 0)] = c.integer(-3, 3);
    still = c.coin(1, 6);
    dt = still && c.coin() ? 0.0 : c.magnitude(-2, 1) * (c.coin(1, 5) ? -1 : 1);
    for (int a = 0; a < D; ++a) {
      LD mv = (s.pad - 0.001L) * s.dx(a) * c.signedReal(1);  // displacement of one step
      b[a] = dt == 0 ? (double)mv : still ? 0.0 : (double)(mv / dt);
    }
  }
  auto u = [&](const LD *x, int r) {
    LD v = b[r];
    for (int q = 0; q < D; ++q) v += A[r][q] * (x[q] - p.lo[q]);
    return v;
  };
  auto X = [&](int i, int j, int k, LD *x) {
    int id[3] = {i, j, k};
    for (int a = 0; a < 3; ++a) x[a] = a < D ? s.node(a, id[a]) : 0;
  };
  if (affineFlow) {  // choose the step so that feet stay in the padded hull
    LD worst = 0;
    s.interior([&](int i, int j, int k) {
      LD x[3];
      X(i, j, k, x);
      for (int a = 0; a < D; ++a) worst = std::max(worst, fabsl(u(x, a)) / s.dx(a));
    });
    LD lim = (s.pad - 0.001L) / (worst > 0 ? worst : 1);
    if (fabs(dt) > lim) dt = (double)(lim * c.real(0.3, 1)) * (dt < 0 ? -1 : 1);
  }
  int steps = affineFlow ? 1 : 1 + (int)c.draw(5);
  PBT_NOTE(c, s.str() << (affineFlow ? " affine flow" : still ? " still" : " uniform flow") << " dt " << dt << " steps " << steps << " b=(" << b[0] << "," << b[1] << "," << b[2] << ")");
  s.padded([&](int i, int j, int k) {
    LD x[3];
    X(i, j, k, x);
    V3 v(0, 0, 0);
    M3 m;
    for (int q = 0; q < 9; ++q) m[q] = 0;
    for (int a = 0; a < D; ++a) v[a] = (double)u(x, a);
    for (int r = 0; r < D; ++r)
      for (int q = 0; q < D; ++q) m(r, q) = numGrad ? 99 : A[r][q];
    vel.velocity()(i, j, k) = v;
    vel.velocityGradient()(i, j, k) = m;
  });
  if (numGrad) {  // velocity gradient through the library's own operator (exact for affine fields)
    if (s.pad >= 2 && c.coin())
      gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(vel.velocity(), vel.velocityGradient());
    else
      gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(vel.velocity(), vel.velocityGradient());
  }
  // size of the terms over the padded hull
  LD S = 0, SG[3] = {0, 0, 0}, umax[3] = {0, 0, 0};
  for (int corner = 0; corner < (1 << D); ++corner) {
    LD x[3] = {0, 0, 0};
    for (int a = 0; a < D; ++a) x[a] = s.node(a, ((corner >> a) & 1) ? s.n[a] - 1 + s.pad : -s.pad);
    S = std::max(S, p.eval(x, 0, true));
    for (int a = 0; a < D; ++a) umax[a] = std::max(umax[a], fabsl(u(x, a)));
  }
  LD de = 0;
  for (int a = 0; a < D; ++a) {
    de += s.etaTol(a) + 16 * EPS * fabsl(umax[a] * dt) / s.dx(a);
    SG[a] = S * s.n[a] * 3 / p.ext[a];
  }
  // A displacement is rounded like a node position; derivatives of the polynomial bound its effect
  LD relTol = 1e-11L + 400 * de;
  bool moved = false;
  LD shift[3] = {0, 0, 0};
  double grow = 1;
  for (int t = 0; t < steps; ++t) {
    // previous step: library results inside, exact values on ghosts and for mixed derivatives
    s.padded([&](int i, int j, int k) {
      LD x[3];
      X(i, j, k, x);
      for (int a = 0; a < D; ++a) x[a] -= shift[a];
      if (t == 0 || !s.isInterior(i, j, k)) {
        ls.phiPrev()(i, j, k) = (double)p.eval(x, 0);
        V3 q(0, 0, 0);
        for (int a = 0; a < D; ++a) q[a] = (double)p.eval(x, 1 << a);
        ls.psiPrev()(i, j, k) = q;
      } else {
        ls.phiPrev()(i, j, k) = ls.phi()(i, j, k);
        ls.psiPrev()(i, j, k) = ls.psi()(i, j, k);
      }
      for (int m = 1; m < (1 << D); ++m)
        if (m & (m - 1)) ls.phiMixedDerivativesPrev()(i, j, k)[mixedSlot(m)] = (double)p.eval(x, m);
    });
    Step::compute(dt, vel, ls);
    grow *= t ? 8 : 1;
    for (int a = 0; a < D; ++a) shift[a] += affineFlow ? 0 : (LD)b[a] * dt;
    s.interior([&](int i, int j, int k) {
      LD x[3], f[3];
      X(i, j, k, x);
      for (int a = 0; a < 3; ++a) f[a] = x[a];
      for (int a = 0; a < D; ++a) f[a] = affineFlow ? x[a] - (LD)dt * u(x, a) : x[a] - shift[a];
      LD hull[3];  // the exact solution may drift out of the hull over several steps: scale with it
      for (int a = 0; a < 3; ++a) hull[a] = f[a];
      LD Sx = std::max(S, p.eval(hull, 0, true));
      LD want = p.eval(f, 0);
      LD tol = Sx * relTol * grow + 1e-290L;
      PBT_CHECK(pbt::close(ls.phi()(i, j, k), want, tol), "after step " << t + 1 << " the value at (" << i << "," << j << "," << k << ") is " << ls.phi()(i, j, k) << ", exact transport gives " << want << " (tolerance " << tol << ") for "
                                                                        << s.str());
      for (int a = 0; a < D; ++a) {
        LD wg = 0, tg = 0;
        for (int r = 0; r < D; ++r) {
          LD e = (r == a) - (LD)dt * A[r][a], ea = (r == a) + fabsl((LD)dt * A[r][a]);
          // a velocity gradient computed by differences carries the rounding of the velocity values
          if (numGrad) ea += fabsl((LD)dt) * umax[r] / s.dx(a);
          wg += e * p.eval(f, 1 << r);
          tg += ea * SG[r] * (Sx / (S > 0 ? S : 1)) * relTol * grow * 24;
        }
        PBT_CHECK(pbt::close(ls.psi()(i, j, k)[a], wg, tg + 1e-290L), "after step " << t + 1 << " the gradient axis " << a << " at (" << i << "," << j << "," << k << ") is " << ls.psi()(i, j, k)[a] << ", exact transport gives " << wg
                                                                           << " (tolerance " << tg << ") for " << s.str());
        if (fabsl(f[a] - x[a]) > 0.01L * s.dx(a)) moved = true;
      }
    });
  }
  c.label(PBT_STR(D << "D " << (affineFlow ? "affine flow" : still ? "still" : "uniform flow")));
  if (steps > 1) c.label("several steps");
  if (numGrad) c.label("numerical velocity gradient");
  if (moved && S > 0) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C14", "tensor cubics under uniform flow (1-5 steps) and affine fields under affine flow; non-trivial: some foot displaced by more than 1% of a cell on a non-zero field", prop)
