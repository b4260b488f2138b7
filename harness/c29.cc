// C29: the library's semi-Lagrangian step and the reference solver's Euler/super-consistent step are the same map.
// Same nodes, same nodal data, the reference's velocity sampled into the library's velocity: at every node whose foot lies strictly inside the
// node range both must produce the same value and gradient.  The state then evolves with the reference solver and the comparison is repeated.
#include "ref_dom.h"
static RG zeros(const Dom &d) { return RG(d.ny, RV(d.nx, 0.0)); }
static RI izeros(const Dom &d) { return RI(d.ny, std::vector<unsigned int>(d.nx, 0)); }
static void prop(Ctx &c)
{
  const RefApi &a = c.coin() ? sideRef() : sideSerial();
  Dom d = genDom(c, a, 30);
  GridSpec s;
  s.dim = 2;
  s.n[0] = d.nx, s.n[1] = d.ny;
  s.pad = c.integer(1, 3);
  s.lo[0] = d.x1 - d.dx / 2, s.hi[0] = d.x2 + d.dx / 2, s.lo[1] = d.y1 - d.dy / 2, s.hi[1] = d.y2 + d.dy / 2;
  double T = c.coin(1, 3) ? 8 : c.real(0.3, 20), h = std::min(d.dx, d.dy);
  double dt = h * (c.coin(1, 4) ? c.magnitude(-6, -1) : c.real(0.01, 0.98)) * (c.coin(1, 4) ? s.pad : 1);
  unsigned t = c.coin(1, 3) ? 0 : (unsigned)c.integer(0, (int)std::min(1000.0, 1 + 2 * T / dt));
  RG m[4] = {zeros(d), zeros(d), zeros(d), zeros(d)};
  if (c.coin(1, 4))
    a.alloc(m[0], m[1], m[2], m[3], d.x, d.y, d.nx, d.ny);
  else {
    Data dat = genData(c, -2, 2);
    double fx = c.coin() ? 1 / d.dx : 1, fy = c.coin() ? 1 / d.dy : 1;
    for (int q = 0; q < 4; ++q)
      for (int i = 0; i < d.ny; ++i)
        for (int j = 0; j < d.nx; ++j) m[q][i][j] = dat(key(j, i, 0), q) * (q & 1 ? fx : 1) * (q & 2 ? fy : 1);
  }
  RG tmp[4] = {m[0], m[1], m[2], m[3]}, xa = zeros(d), ya = zeros(d);
  RI cx = izeros(d), cy = izeros(d), tr = izeros(d);
  char bt[16] = "Euler", ps[32] = "SuperConsistent";
  int steps = 1 + (int)c.draw(4);
  PBT_NOTE(c, "pad=" << s.pad << " T=" << T << " dt=" << dt << " t=" << t << " x" << steps);
  auto g = makeGrid<2>(s);
  gc::Levelset<G<2>, double> ls(*g);
  gc::LevelsetVelocity<G<2>, double> vel(*g);
  LD ext = fabsl((LD)d.x1) + fabsl((LD)d.x2) + fabsl((LD)d.y1) + fabsl((LD)d.y2);
  for (int st = 0; st < steps; ++st, ++t) {
    std::string info = PBT_STR("(step " << st << ", " << a.name << " " << d.nx << "x" << d.ny << " nodes, dt=" << dt << " t=" << t << ")");
    // ghosts repeat the nearest node; no foot that is compared needs them
    auto in = [](int i, int n) { return i < 0 ? 0 : i >= n ? n - 1 : i; };
    auto data = [&](int i, int j, int, int mask) { return m[mask][in(j, d.ny)][in(i, d.nx)]; };
    setPrev<2>(ls, s, data);
    s.interior([&](int i, int j, int k) {
      double x = d.x[i], y = d.y[j], t1 = (t + 1) * dt;
      vel.velocity()(i, j, k) = V3(a.u(x, y, t1, T), a.v(x, y, t1, T), 0);
      M3 &q = vel.velocityGradient()(i, j, k);
      q(0, 0) = a.ux(x, y, t1, T), q(0, 1) = a.uy(x, y, t1, T), q(1, 0) = a.vx(x, y, t1, T), q(1, 1) = a.vy(x, y, t1, T);
    });
    gc::Temporal<double, G<2>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<2>>>::compute(dt, vel, ls);
    bool mpi = c.coin(1, 3);
    int cut = c.integer(0, d.nx);
    if (mpi) {
      for (int q = 0; q < 2; ++q) {
        unsigned lo = q ? cut : 0, hi = q ? d.nx : cut;
        a.traceMpi(d.x, d.y, xa, ya, t, dt, T, lo, hi, bt);
        a.locateMpi(d.x, d.y, xa, ya, cx, cy, tr, d.x1, d.x2, d.y1, d.y2, lo, hi);
      }
      for (int q = 0; q < 2; ++q)
        a.updateMpi(d.x, d.y, xa, ya, cx, cy, tr, t, dt, tmp[0], tmp[1], tmp[2], tmp[3], m[0], m[1], m[2], m[3], ps, bt, q ? cut : 0, q ? d.nx : cut, T);
    } else {
      a.trace(d.x, d.y, xa, ya, t, dt, T, bt);
      a.locate(d.x, d.y, xa, ya, cx, cy, tr, d.x1, d.x2, d.y1, d.y2);
      a.update(d.x, d.y, xa, ya, cx, cy, tr, t, dt, tmp[0], tmp[1], tmp[2], tmp[3], m[0], m[1], m[2], m[3], ps, bt, T);
    }
    auto ldata = [&](int i, int j, int k, int mask) { return (LD)data(i, j, k, mask); };
    LD margin[2] = {64 * EPS * ext, 64 * EPS * ext};
    int compared = 0;
    s.interior([&](int i, int j, int k) {
      V3 f(0, 0, 0);
      const V3 &v = vel.velocity()(i, j, k);
      const M3 &q = vel.velocityGradient()(i, j, k);
      f[0] = (double)((LD)d.x[i] - (LD)dt * v[0]), f[1] = (double)((LD)d.y[j] - (LD)dt * v[1]);
      if (f[0] < d.x1 + margin[0] || f[0] > d.x2 - margin[0] || f[1] < d.y1 + margin[1] || f[1] > d.y2 - margin[1]) return;
      ++compared;
      RefEval w = refEval<2>(s, ldata, f);  // conditioning only: how far rounding of the foot can move each result
      LD de = 40 * EPS * (ext + 1) * (1 + 8 * ((LD)t + 1) * dt / T) / std::min(s.dx(0), s.dx(1));
      LD tv = 4 * w.tolV + 8 * w.scale * de;
      PBT_CHECK(pbt::close(ls.phi()(i, j, k), tmp[0][j][i], tv), "value at node (" << i << "," << j << "): library " << ls.phi()(i, j, k) << ", reference " << tmp[0][j][i] << " (tolerance " << tv << ") foot (" << f << ") " << info);
      for (int ax = 0; ax < 2; ++ax) {
        LD tg = 1e-290L;
        for (int r = 0; r < 2; ++r) tg += ((r == ax) + fabsl((LD)dt * q(r, ax)) + 16 * EPS * 8 * (LD)dt * (1 + 8 * ((LD)t + 1) * dt / T)) * (4 * w.tolG[r] + 64 * EPS * fabsl(w.grad[r]) + 48 * w.scale / s.dx(r) * de);
        double ref = tmp[1 + ax][j][i], lib = ls.psi()(i, j, k)[ax];
        PBT_CHECK(pbt::close(lib, ref, tg), "gradient along axis " << ax << " at node (" << i << "," << j << "): library " << lib << ", reference " << ref << " (tolerance " << tg << ") foot (" << f << ") " << info);
      }
      if (fabs(v[0] * dt) > 1e-3 * d.dx && fabs(v[1] * dt) > 1e-3 * d.dy && (m[1][j][i] != 0 || m[2][j][i] != 0)) c.nontrivial();
    });
    if (compared) c.label(compared > 20 ? "more than 20 nodes compared" : "some nodes compared");
    // next step, as the reference programs do it
    if (mpi)
      a.mixedMpi(tmp[1], tmp[2], tmp[3], d.nx, d.ny, d.dx, d.dy, 0, cut), a.mixedMpi(tmp[1], tmp[2], tmp[3], d.nx, d.ny, d.dx, d.dy, cut, d.nx);
    else
      a.mixed(tmp[1], tmp[2], tmp[3], d.nx, d.ny, d.dx, d.dy);
    for (int q = 0; q < 4; ++q) m[q] = tmp[q];
    c.label(mpi ? "column ranges" : "full grid");
  }
}
PBT_MAIN("C29", "random domains, node counts, times, steps, periods and nodal data, one to four steps; non-trivial: a compared node with non-zero gradient data whose foot is off the node along both axes", prop)
