// C32: a simulation does not depend on how its axes are named, oriented, placed or scaled, nor on axes along which nothing varies.
// One simulation (several semi-Lagrangian steps with velocity gradients and mixed derivatives from the library's own difference operators or given)
// is run on a grid and again after relabelling, mirroring, shifting and scaling axes, rescaling time and adding axes without variation. Both
// histories have to agree; how far rounding may move them is measured by running the first one again with rounding-size noise.
#include "hermite_ref.h"
struct Sim {  // the canonical problem
  GridSpec s;
  int steps, gradMode;  // 0 given, 1 central, 2 third order
  std::vector<double> dt;
  Data phi0, psi0, vel, vgrad;
  double psiFac[3] = {1, 1, 1}, extraVel;
  double reach, gs;
  bool smooth, fullMixed;
};
struct View {  // where the canonical problem is put
  GridSpec s;
  int tgt[3] = {0, 1, 2};
  bool flip[3] = {false, false, false};
  int scale = 0, tscale = 0;
};
struct Hist {
  std::vector<std::vector<double>> phi, psi[3];
  double big0 = 0;            // size of the initial data, in values per cell
  std::vector<double> extra;  // largest gradient along added axes, per step, in units of that axis
};
struct Noise {
  bool on = false;
  uint64_t s = 1;
  LD disp[3] = {0, 0, 0};
  double u()
  {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return on ? (double)(s >> 11) * 0x1p-52 - 1 : 0;
  }
  double rel(double v) { return on ? v * (1 + 3e-15 * u()) : v; }
};
template <int E>
static Hist simulate(const Sim &m, const View &w, Noise nz, Ctx &)
{
  const int D = m.s.dim;
  auto g = makeGrid<E>(w.s);
  gc::Levelset<G<E>, double> ls(*g);
  gc::LevelsetVelocity<G<E>, double> vel(*g);
  gc::Array<G<E>, M3> hess(*g), dmix(*g);
  gc::Array<G<E>, V3> mix(*g);
  double L = ldexp(1.0, w.scale), TS = ldexp(1.0, w.tscale);
  // canonical index of a node of the view
  auto canon = [&](int i, int j, int k, int *q) {
    int id[3] = {i, j, k};
    q[0] = q[1] = q[2] = 0;
    for (int a = 0; a < D; ++a) {
      int v = id[w.tgt[a]];
      q[a] = w.flip[a] ? m.s.n[a] - 1 - v : v;
    }
  };
  auto sg = [&](int a) { return w.flip[a] ? -1.0 : 1.0; };
  bool used[3] = {false, false, false};
  for (int a = 0; a < D; ++a) used[w.tgt[a]] = true;
  auto clampIdx = [&](int i, int j, int k, int *q) {
    int id[3] = {i, j, k};
    for (int a = 0; a < 3; ++a) q[a] = std::max(0, std::min(w.s.n[a] - 1, id[a]));
  };
  auto ghosts = [&](auto &arr) {
    w.s.padded([&](int i, int j, int k) {
      if (w.s.isInterior(i, j, k)) return;
      int q[3];
      clampIdx(i, j, k, q);
      arr(i, j, k) = arr(q[0], q[1], q[2]);
    });
  };
  Hist h;
  w.s.interior([&](int i, int j, int k) {
    int q[3];
    canon(i, j, k, q);
    long kk = key(q[0], q[1], q[2]);
    V3 p(0, 0, 0);
    double v;
    if (m.smooth) {
      v = m.phi0.scale;
      for (int a = 0; a < D; ++a) v *= cos(0.7 * (a + 1) * (q[a] + 0.5) / m.s.n[a] + a);
      for (int a = 0; a < D; ++a) p[w.tgt[a]] = sg(a) / L * (-v * tan(0.7 * (a + 1) * (q[a] + 0.5) / m.s.n[a] + a) * 0.7 * (a + 1) / (m.s.n[a] * (double)m.s.dx(a)));
    } else {
      v = m.phi0(kk, 0);
      for (int a = 0; a < D; ++a) p[w.tgt[a]] = sg(a) / L * m.psi0(kk, 1 + a) * m.psiFac[a];
    }
    ls.phi()(i, j, k) = v, ls.psi()(i, j, k) = p;
    h.big0 = std::max(h.big0, fabs(v));
    for (int a = 0; a < D; ++a) h.big0 = std::max(h.big0, fabs(p[w.tgt[a]]) * (double)w.s.dx(w.tgt[a]));
  });
  for (int t = 0; t < m.steps; ++t) {
    double dt = m.dt[t] * TS;
    ls.phiPrev() = ls.phi();
    ls.psiPrev() = ls.psi();
    if (nz.on) w.s.interior([&](int i, int j, int k) {
        ls.phiPrev()(i, j, k) = nz.rel(ls.phiPrev()(i, j, k));
        for (int a = 0; a < E; ++a) ls.psiPrev()(i, j, k)[a] = nz.rel(ls.psiPrev()(i, j, k)[a]);
      });
    ghosts(ls.phiPrev()), ghosts(ls.psiPrev());
    if constexpr (E > 1) {  // mixed derivatives from the gradients, every order of differentiation weighted alike
      gc::Gradient<double, G<E>, gc::SecondOrderCentral<double, G<E>>>::compute(ls.psiPrev(), hess);
      auto &md = ls.phiMixedDerivativesPrev();
      static const int A[3] = {0, 1, 2}, B[3] = {1, 2, 0};
      w.s.interior([&](int i, int j, int k) {
        for (int p = 0; p < (E == 2 ? 1 : 3); ++p) {
          double v = nz.rel(0.5 * (hess(i, j, k)(A[p], B[p]) + hess(i, j, k)(B[p], A[p])));
          md(i, j, k)[p] = v, mix(i, j, k)[p] = v;
        }
      });
      if constexpr (E == 3) {
        ghosts(mix);
        gc::Gradient<double, G<E>, gc::SecondOrderCentral<double, G<E>>>::compute(mix, dmix);
        w.s.interior([&](int i, int j, int k) {
          double z[3] = {dmix(i, j, k)(0, 2), dmix(i, j, k)(1, 0), dmix(i, j, k)(2, 1)};
          std::sort(z, z + 3, [](double a, double b) { return fabs(a) < fabs(b); });
          md(i, j, k)[3] = m.fullMixed ? nz.rel(((z[0] + z[1]) + z[2]) / 3) : 0.0;
        });
      }
      ghosts(md);
    }
    w.s.padded([&](int i, int j, int k) {
      int q[3];
      canon(i, j, k, q);
      long kk = key(q[0], q[1], q[2]) + (long)t * 7919;
      V3 v(0, 0, 0);
      M3 gr;
      for (int z = 0; z < 9; ++z) gr[z] = 0;
      auto unit = [&](const Data &d, int comp) {
        double x = d(kk, comp) / d.scale;
        return x > 1 ? 1 : x < -1 ? -1 : x;
      };
      for (int a = 0; a < D; ++a) v[w.tgt[a]] = sg(a) * L / TS * (unit(m.vel, a) * m.reach * (double)m.s.dx(a) / m.dt[t] + nz.u() * (double)nz.disp[a] / m.dt[t]);
      for (int e = 0; e < E; ++e)
        if (!used[e]) v[e] = m.extraVel * unit(m.vel, 5) * (double)w.s.dx(e) / dt;
      for (int r = 0; r < D; ++r)
        for (int c = 0; c < D; ++c) gr(w.tgt[r], w.tgt[c]) = sg(r) * sg(c) / TS * nz.rel(m.gs * unit(m.vgrad, r * 3 + c) / m.dt[t] * (double)(m.s.dx(r) / m.s.dx(c)));
      vel.velocity()(i, j, k) = v;
      vel.velocityGradient()(i, j, k) = gr;
    });
    if (m.gradMode == 1) gc::Gradient<double, G<E>, gc::SecondOrderCentral<double, G<E>>>::compute(vel.velocity(), vel.velocityGradient());
    if (m.gradMode == 2) gc::Gradient<double, G<E>, gc::ThirdOrder<double, G<E>>>::compute(vel.velocity(), vel.velocityGradient());
    gc::Temporal<double, G<E>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<E>>>::compute(dt, vel, ls);
    // canonical copies of the result; nodes that differ only along added axes are folded into the first of them after comparison by the caller
    long tot = (long)w.s.n[0] * w.s.n[1] * w.s.n[2], canonTot = (long)m.s.n[0] * m.s.n[1] * m.s.n[2], rep = tot / canonTot;
    std::vector<double> P(tot), Q[3];
    std::vector<int> seen(canonTot, 0);
    for (int a = 0; a < D; ++a) Q[a].resize(tot);
    double ex = 0;
    w.s.interior([&](int i, int j, int k) {
      int q[3];
      canon(i, j, k, q);
      long at = ((long)q[0] * m.s.n[1] + q[1]) * m.s.n[2] + q[2], slot = at * rep + seen[at]++;
      P[slot] = ls.phi()(i, j, k);
      for (int a = 0; a < D; ++a) Q[a][slot] = ls.psi()(i, j, k)[w.tgt[a]] * sg(a) * L;
      for (int e = 0; e < E; ++e)
        if (!used[e]) ex = std::max(ex, fabs(ls.psi()(i, j, k)[e]) * (double)w.s.dx(e));
    });
    h.phi.push_back(P);
    for (int a = 0; a < D; ++a) h.psi[a].push_back(Q[a]);
    h.extra.push_back(ex);
  }
  return h;
}
static Hist go(const Sim &m, const View &w, Noise n, Ctx &c) { return w.s.dim == 1 ? simulate<1>(m, w, n, c) : w.s.dim == 2 ? simulate<2>(m, w, n, c) : simulate<3>(m, w, n, c); }
static void prop(Ctx &c)
{
  static const int DD[] = {2, 1, 2, 3};
  int D = DD[c.draw(4)];
  Sim m;
  m.s = genGrid(c, D, 1, 3, 12, 6, 4);
  for (int a = 0; a < D; ++a) m.s.n[a] = std::min(m.s.n[a], D == 1 ? 24 : D == 2 ? 10 : 5);
  m.s.pad = std::min(m.s.pad, 4);
  m.steps = 1 + (int)c.draw(c.coin(1, 6) ? 8 : 3);
  m.gradMode = (int)c.draw(m.s.pad >= 2 ? 3 : 2);
  double dt0 = c.coin() ? 0.125 : c.magnitude(-2, 1);
  for (int t = 0; t < m.steps; ++t) m.dt.push_back(dt0 * (c.coin(1, 4) ? c.real(0.5, 1) : 1) * (c.coin(1, 8) ? -1 : 1));
  m.phi0 = genData(c, -1, 1), m.psi0 = genData(c, -1, 1), m.vel = genData(c, 0, 0), m.vgrad = genData(c, 0, 0);
  m.vel.scale = m.vgrad.scale = 1, m.vel.offset = c.coin(1, 4) ? c.signedReal(0.5) : 0;
  if (m.vel.kind == 3) m.vel.kind = 1;
  for (int a = 0; a < D; ++a) m.psiFac[a] = c.coin() ? 1 / (double)m.s.dx(a) : 1;
  m.reach = (m.s.pad - 0.05) * (c.coin() ? 1 : c.real(0, 1));
  m.gs = c.real(0, 1.5), m.smooth = c.coin(1, 3), m.fullMixed = c.coin(2, 3), m.extraVel = c.real(0, 0.9);
  // the other view
  View b, w;
  b.s = m.s, w.s = m.s;
  w.s.dim = D + (int)c.draw(4 - D);
  std::vector<int> ax = {0, 1, 2};
  ax.resize(w.s.dim);
  for (int a = 0; a < D; ++a) {
    int at = (int)c.draw(ax.size());
    w.tgt[a] = ax[at], ax.erase(ax.begin() + at);
  }
  bool mirror = m.gradMode != 2;  // the third-order difference is one-sided by design
  for (int a = 0; a < D; ++a) w.flip[a] = mirror && c.coin(1, 3);
  w.scale = c.coin() ? 0 : c.integer(0, 12) - 6, w.tscale = c.coin() ? 0 : c.integer(0, 8) - 4;
  double L = ldexp(1.0, w.scale);
  LD disp[3] = {0, 0, 0};
  for (int a = 0; a < 3; ++a) w.s.n[a] = 1, w.s.lo[a] = 0, w.s.hi[a] = 1;
  bool shifted = false;
  for (int a = 0; a < D; ++a) {
    double lo = m.s.lo[a], hi = m.s.hi[a], sh = c.coin(1, 3) ? (double)m.s.dx(a) * c.integer(-8, 8) : 0;
    if (w.flip[a]) std::swap(lo, hi), lo = -lo, hi = -hi;
    if (sh != 0) shifted = true;
    int q = w.tgt[a];
    w.s.n[q] = m.s.n[a], w.s.lo[q] = (lo + sh) * L, w.s.hi[q] = (hi + sh) * L;
  }
  for (int q : ax) w.s.n[q] = c.integer(1, 3), w.s.lo[q] = c.signedReal(2), w.s.hi[q] = w.s.lo[q] + c.real(0.3, 3);
  for (int a = 0; a < D; ++a) disp[a] = m.s.posTol(a) + w.s.posTol(w.tgt[a]) / L;
  std::string info = PBT_STR(m.s.str() << " " << m.steps << " steps, dt " << m.dt[0] << ", velocity gradient " << (m.gradMode == 0 ? "given" : m.gradMode == 1 ? "central" : "third order") << "; again on " << w.s.str() << " axes");
  for (int a = 0; a < D; ++a) info += PBT_STR(" " << (w.flip[a] ? "-" : "+") << w.tgt[a]);
  info += PBT_STR(" time scale 2^" << w.tscale);
  PBT_NOTE(c, info);
  Noise no, yes;
  yes.on = true;
  Hist x = go(m, b, no, c), y = go(m, w, no, c), z[2];
  for (int r = 0; r < 2; ++r) {
    yes.s = 77 + r;
    for (int a = 0; a < D; ++a) yes.disp[a] = disp[a];
    z[r] = go(m, b, yes, c);
  }
  size_t rep = y.phi[0].size() / x.phi[0].size();
  bool varies = false;
  LD big = x.big0;
  for (int t = 0; t < m.steps; ++t) {
    for (size_t i = 0; i < x.phi[t].size(); ++i) {
      big = std::max(big, fabsl((LD)x.phi[t][i]));
      for (int a = 0; a < D; ++a) big = std::max(big, fabsl((LD)x.psi[a][t][i]) * m.s.dx(a));
    }
    if (!(big < 1e12L)) throw pbt::Discard{};
    for (int f = 0; f <= D; ++f) {
      auto &X = f ? x.psi[f - 1][t] : x.phi[t], &Y = f ? y.psi[f - 1][t] : y.phi[t];
      LD d = 0;
      for (size_t i = 0; i < X.size(); ++i) {
        for (int r = 0; r < 2; ++r) d = std::max(d, fabsl((LD)X[i] - (f ? z[r].psi[f - 1][t] : z[r].phi[t])[i]));
        if (X[i] != X[0]) varies = true;
      }
      LD nat = f ? big / m.s.dx(f - 1) : big, tol = 100 * d + 2e-13L * (t + 1) * nat + 1e-290L;
      if (tol > 1e-5L * nat && nat > 0) throw pbt::Discard{};  // rounding decides
      for (size_t i = 0; i < X.size(); ++i)
        for (size_t r = 0; r < rep; ++r)
          PBT_CHECK(fabsl((LD)X[i] - Y[i * rep + r]) <= tol, (f ? PBT_STR("gradient along axis " << f - 1) : std::string("value")) << " at node number " << i << " after step " << t + 1 << " is " << X[i] << ", in the equivalent simulation " << Y[i * rep + r]
                                                                  << " (tolerance " << tol << ") for " << info);
      if (!f && rep >= 1 && w.s.dim > D) PBT_CHECK(y.extra[t] <= (double)(1e-11L * (t + 1) * big), "gradient along an axis without variation is " << y.extra[t] << " per cell after step " << t + 1 << " for " << info);
    }
  }
  c.label(PBT_STR(D << "D in " << w.s.dim << "D"));
  bool flipped = false, named = false;
  for (int a = 0; a < D; ++a) flipped |= w.flip[a], named |= w.tgt[a] != a;
  if (flipped) c.label("mirrored");
  if (named) c.label("relabelled");
  if (shifted) c.label("shifted");
  if (w.scale || w.tscale) c.label("scaled");
  if (varies && m.reach > 0.01 && (flipped || named || shifted || w.scale || w.tscale || w.s.dim > D)) c.nontrivial();
}
PBT_MAIN("C32", "random multi-step simulations run on two equivalent set-ups (axes relabelled, mirrored, shifted, scaled, added; time rescaled); non-trivial: varying data, feet off their nodes and at least one change", prop)
