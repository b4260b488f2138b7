#include "ref_dom.h"
// C24: one to four complete steps of the reference solver, each stage against its own oracle.
struct Dual {  // value and derivative with respect to the node's x and y
  LD v, dx, dy;
};
static Dual operator+(Dual a, Dual b) { return {a.v + b.v, a.dx + b.dx, a.dy + b.dy}; }
static Dual operator*(LD s, Dual a) { return {s * a.v, s * a.dx, s * a.dy}; }
static Dual operator-(Dual a, Dual b) { return a + (-1.0L) * b; }
struct Flow {
  const RefApi &a;
  double T;
  Dual u(Dual x, Dual y, double t) const
  {
    LD gx = a.ux((double)x.v, (double)y.v, t, T), gy = a.uy((double)x.v, (double)y.v, t, T);
    return {a.u((double)x.v, (double)y.v, t, T), gx * x.dx + gy * y.dx, gx * x.dy + gy * y.dy};
  }
  Dual v(Dual x, Dual y, double t) const
  {
    LD gx = a.vx((double)x.v, (double)y.v, t, T), gy = a.vy((double)x.v, (double)y.v, t, T);
    return {a.v((double)x.v, (double)y.v, t, T), gx * x.dx + gy * y.dx, gx * x.dy + gy * y.dy};
  }
  // root of the characteristic through (x,y) at time level t+1, traced back to level t
  void root(double x, double y, unsigned t, double dt, bool rk3, Dual &X, Dual &Y) const
  {
    Dual x0 = {x, 1, 0}, y0 = {y, 0, 1};
    double t1 = (t + 1) * dt, t0 = t * dt, th = t * dt + dt / 2;
    Dual k1x = u(x0, y0, t1), k1y = v(x0, y0, t1);
    X = x0 - (LD)dt * k1x, Y = y0 - (LD)dt * k1y;
    if (!rk3) return;
    Dual k2x = u(X, Y, t0), k2y = v(X, Y, t0);
    X = x0 - (LD)dt / 4 * (k1x + k2x), Y = y0 - (LD)dt / 4 * (k1y + k2y);
    Dual k3x = u(X, Y, th), k3y = v(X, Y, th);
    X = x0 - (LD)dt / 6 * (k1x + k2x + 4.0L * k3x), Y = y0 - (LD)dt / 6 * (k1y + k2y + 4.0L * k3y);
  }
};
static RG grid(const Dom &d, double v = 0) { return RG(d.ny, RV(d.nx, v)); }
static RI igrid(const Dom &d) { return RI(d.ny, std::vector<unsigned>(d.nx, 0u)); }
template <class A>
static void sameOutside(const A &a, const A &b, int lo, int hi, const char *what, const RefApi &r)
{
  for (size_t i = 0; i < a.size(); ++i)
    for (int j = 0; j < (int)a[i].size(); ++j)
      if (j < lo || j >= hi) PBT_CHECK(a[i][j] == b[i][j], r.name << " " << what << " on columns [" << lo << "," << hi << ") changed column " << j);
}
static double special(Ctx &c, const RV &x, double lo, double hi)
{
  int n = (int)x.size();
  if (nextafter(x.back(), hi) < hi && c.coin(1, 3)) return nextafter(x.back(), hi);
  switch (c.weighted({3, 2, 2, 1, 1, 1, 1})) {
    case 0: return x[c.integer(0, n - 1)];
    case 1: {
      double v = x[n > 2 ? c.integer(1, n - 2) : c.integer(0, 1)];
      return c.coin() ? nextafter(v, hi) : nextafter(v, lo);
    }
    case 2: return lo + (hi - lo) * c.real(0, 1);
    case 3: return c.coin() ? lo : hi;
    case 4: return c.coin() ? nextafter(lo, hi) : nextafter(hi, lo);
    case 5: return c.coin() ? nextafter(lo, lo - 1) : nextafter(hi, hi + 1);
    default: return c.coin() ? lo - c.real(0, 1) : hi + c.real(0, 1);
  }
}
static void checkCell(const RefApi &a, const RV &x, double hi, double p, unsigned cell, const char *ax, const std::string &info)
{
  PBT_CHECK(cell + 1 < x.size(), a.name << " cell search: " << ax << " cell " << cell << " of " << x.size() - 1 << " " << info);
  // the last node may round to just below the limit: the last cell extends to it
  PBT_CHECK(x[cell] <= p && (p <= x[cell + 1] || (cell + 2 == x.size() && p <= hi)), a.name << " cell search: " << ax << "=" << p << " is not in cell " << cell << " [" << x[cell] << "," << x[cell + 1] << "] " << info);
}
static void prop(Ctx &c)
{
  const RefApi &a = c.coin() ? sideRef() : sideSerial();
  Dom d = genDom(c, a, 24);
  double T = c.coin(1, 3) ? 8 : c.real(0.3, 20), h = std::min(d.dx, d.dy);
  double dt = h * (c.coin(1, 8) ? c.real(1, 3) : c.coin(1, 8) ? c.magnitude(-6, -1) : c.real(0.01, 0.98));
  unsigned t = c.coin(1, 3) ? 0 : (unsigned)c.integer(0, (int)std::min(1000.0, 1 + 2 * T / dt));
  bool rk3 = c.coin(2, 3), super = c.coin(2, 3);
  char bt[16], ps[32];
  strcpy(bt, rk3 ? "RK3" : "Euler"), strcpy(ps, super ? "SuperConsistent" : "Heuns");
  RG m[4] = {grid(d), grid(d), grid(d), grid(d)};
  if (c.coin(1, 4))
    a.alloc(m[0], m[1], m[2], m[3], d.x, d.y, d.nx, d.ny);
  else {
    Data dat = genData(c, -2, 2);
    double fx = c.coin() ? 1 / d.dx : 1, fy = c.coin() ? 1 / d.dy : 1;
    for (int q = 0; q < 4; ++q)
      for (int i = 0; i < d.ny; ++i)
        for (int j = 0; j < d.nx; ++j) m[q][i][j] = dat(key(j, i, 0), q) * (q & 1 ? fx : 1) * (q & 2 ? fy : 1);
  }
  // order of the fields: value, x derivative, y derivative, cross derivative (index = derivative mask)
  RG tmp[4] = {m[0], m[1], m[2], m[3]}, xa = grid(d), ya = grid(d);
  RI cx = igrid(d), cy = igrid(d), tr = igrid(d);
  int steps = 1 + (int)c.draw(3);
  bool limNodes = c.coin();
  double X1 = limNodes ? d.x.front() : d.x1, X2 = limNodes ? d.x.back() : d.x2, Y1 = limNodes ? d.y.front() : d.y1, Y2 = limNodes ? d.y.back() : d.y2;
  Flow flow{a, T};
  PBT_NOTE(c, "T=" << T << " dt=" << dt << " t=" << t << " " << bt << "/" << ps << " x" << steps);
  LD ext = fabsl((LD)d.x1) + fabsl((LD)d.x2) + fabsl((LD)d.y1) + fabsl((LD)d.y2);
  for (int s = 0; s < steps; ++s, ++t) {
    bool mpi = c.coin();
    int cut = c.integer(0, d.nx);
    std::string info = PBT_STR("(step " << s << (mpi ? PBT_STR(", columns split at " << cut) : std::string()) << ", " << d.nx << "x" << d.ny << " nodes, dt=" << dt << " t=" << t << " " << bt << "/" << ps << ")");
    // back-tracing
    if (mpi) {
      RG x0 = xa, y0 = ya;
      a.traceMpi(d.x, d.y, xa, ya, t, dt, T, 0, cut, bt);
      sameOutside(xa, x0, 0, cut, "tracing", a), sameOutside(ya, y0, 0, cut, "tracing", a);
      x0 = xa, y0 = ya;
      a.traceMpi(d.x, d.y, xa, ya, t, dt, T, cut, d.nx, bt);
      sameOutside(xa, x0, cut, d.nx, "tracing", a), sameOutside(ya, y0, cut, d.nx, "tracing", a);
    } else
      a.trace(d.x, d.y, xa, ya, t, dt, T, bt);
    LD tolT = 60 * EPS * (ext + 1 + (LD)dt * (1 + 8 * ((LD)t + 1) * dt / T));
    for (int i = 0; i < d.ny; ++i)
      for (int j = 0; j < d.nx; ++j) {
        Dual X, Y;
        flow.root(d.x[j], d.y[i], t, dt, rk3, X, Y);
        PBT_CHECK(pbt::close(xa[i][j], X.v, tolT) && pbt::close(ya[i][j], Y.v, tolT), a.name << " node (" << j << "," << i << ") is traced to (" << xa[i][j] << "," << ya[i][j] << "), expected (" << X.v << "," << Y.v << ") " << info);
      }
    bool adv = c.coin(1, 3);
    if (adv)
      for (int q = 1 + (int)c.draw(6); q > 0; --q) {
        int i = c.integer(0, d.ny - 1), j = c.integer(0, d.nx - 1);
        xa[i][j] = special(c, d.x, X1, X2), ya[i][j] = special(c, d.y, Y1, Y2);
        c.label("points at nodes and limits");
      }
    // cell search
    RG xk = xa, yk = ya;
    if (mpi) {
      RI k0 = cx, k1 = cy, k2 = tr;
      a.locateMpi(d.x, d.y, xa, ya, cx, cy, tr, X1, X2, Y1, Y2, 0, cut);
      sameOutside(cx, k0, 0, cut, "cell search", a), sameOutside(cy, k1, 0, cut, "cell search", a), sameOutside(tr, k2, 0, cut, "cell search", a);
      k0 = cx, k1 = cy, k2 = tr;
      a.locateMpi(d.x, d.y, xa, ya, cx, cy, tr, X1, X2, Y1, Y2, cut, d.nx);
      sameOutside(cx, k0, cut, d.nx, "cell search", a), sameOutside(cy, k1, cut, d.nx, "cell search", a), sameOutside(tr, k2, cut, d.nx, "cell search", a);
    } else
      a.locate(d.x, d.y, xa, ya, cx, cy, tr, X1, X2, Y1, Y2);
    PBT_CHECK(xa == xk && ya == yk, a.name << " cell search changed the traced points");
    for (int i = 0; i < d.ny; ++i)
      for (int j = 0; j < d.nx; ++j) {
        bool ox = !(xa[i][j] > X1 && xa[i][j] < X2), oy = !(ya[i][j] > Y1 && ya[i][j] < Y2);
        unsigned want = !ox && !oy ? 1 : !ox ? 2 : !oy ? 3 : 4;
        std::string at = PBT_STR("point (" << xa[i][j] << "," << ya[i][j] << ") of node (" << j << "," << i << ") " << info);
        PBT_CHECK(tr[i][j] == want, a.name << " classifies as " << tr[i][j] << ", expected " << want << ": " << at);
        if (!ox && want != 4) checkCell(a, d.x, X2, xa[i][j], cx[i][j], "x", at);
        if (!oy && want != 4) checkCell(a, d.y, Y2, ya[i][j], cy[i][j], "y", at);
        if (want == 2) PBT_CHECK(cy[i][j] == (ya[i][j] <= Y1 ? 0u : (unsigned)d.ny - 2), a.name << " boundary cell row " << cy[i][j] << ": " << at);
        if (want == 3) PBT_CHECK(cx[i][j] == (xa[i][j] <= X1 ? 0u : (unsigned)d.nx - 2), a.name << " boundary cell column " << cx[i][j] << ": " << at);
        if (want != 1) c.label(PBT_STR("leaving, case " << want));
      }
    // update
    RG keep[4] = {m[0], m[1], m[2], m[3]};
    RI kx = cx, ky = cy, kt = tr;
    auto upd = [&](int lo, int hi) {
      RG b[4] = {tmp[0], tmp[1], tmp[2], tmp[3]};
      a.updateMpi(d.x, d.y, xa, ya, cx, cy, tr, t, dt, tmp[0], tmp[1], tmp[2], tmp[3], m[0], m[1], m[2], m[3], ps, bt, lo, hi, T);
      for (int q = 0; q < 4; ++q) sameOutside(tmp[q], b[q], lo, hi, "update", a);
    };
    if (mpi)
      upd(0, cut), upd(cut, d.nx);
    else
      a.update(d.x, d.y, xa, ya, cx, cy, tr, t, dt, tmp[0], tmp[1], tmp[2], tmp[3], m[0], m[1], m[2], m[3], ps, bt, T);
    for (int q = 0; q < 4; ++q) PBT_CHECK(m[q] == keep[q], a.name << " update changed its source field " << q << " " << info);
    PBT_CHECK(tmp[3] == m[3], a.name << " update changed the cross derivative");
    PBT_CHECK(xa == xk && ya == yk && cx == kx && cy == ky && tr == kt, a.name << " update changed the traced points or cells");
    double t0 = t * dt, t1 = (t + 1) * dt;
    LD hx = ((LD)d.x2 - d.x1) / (d.nx - 1), hy = ((LD)d.y2 - d.y1) / (d.ny - 1), de = 12 * EPS * ext * (1 / hx + 1 / hy);
    for (int i = 0; i < d.ny; ++i)
      for (int j = 0; j < d.nx; ++j) {
        double x = d.x[j], y = d.y[i];
        auto H = [&](double px, double py, LD &v, LD *g, LD &sc) {
          unsigned bx = cx[i][j], by = cy[i][j];
          LD eta[2] = {((LD)px - d.x[bx]) / hx, ((LD)py - d.y[by]) / hy}, hh[2] = {hx, hy};
          long base[2] = {bx, by};
          hermiteCell(2, [&](int q, int r, int, int mask) { return m[mask][r][q]; }, base, eta, hh, v, g, sc);
        };
        LD v = m[0][i][j], g[3] = {0, 0, 0}, sc = 0, w[3] = {m[0][i][j], m[1][i][j], m[2][i][j]}, alt = 0, tol[3] = {0, 0, 0};
        LD bx = m[1][i][j], by = m[2][i][j], bxy = m[3][i][j];
        LD nmag = fabsl(v) + fabsl(bx) + fabsl(by) + fabsl(bxy), k = (1 + 8 * (LD)dt) * (1 + 8 * (LD)dt);
        bool ok = true, twoWays = false;
        switch (tr[i][j]) {
          case 1: {
            H(xa[i][j], ya[i][j], v, g, sc);
            w[0] = v, tol[0] = sc * (3000 * EPS + 8 * de);
            LD tg = sc * (8000 * EPS + 40 * de) * (1 / hx + 1 / hy) * k * k;
            tol[1] = tol[2] = tg;
            if (super) {
              Dual X, Y;
              flow.root(x, y, t, dt, rk3, X, Y);
              w[1] = X.dx * g[0] + Y.dx * g[1];
              w[2] = X.dy * g[0] + Y.dy * g[1];
            } else {
              double rx = xa[i][j], ry = ya[i][j];
              LD uxr = a.ux(rx, ry, t0, T), uyr = a.uy(rx, ry, t0, T), vxr = a.vx(rx, ry, t0, T), vyr = a.vy(rx, ry, t0, T);
              LD uxn = a.ux(x, y, t1, T), uyn = a.uy(x, y, t1, T), vxn = a.vx(x, y, t1, T), vyn = a.vy(x, y, t1, T);
              LD p = g[0] - dt * (uxr * g[0] + vxr * g[1]), q = g[1] - dt * (uyr * g[0] + vyr * g[1]);
              w[1] = g[0] - 0.5L * dt * (uxr * g[0] + vxr * g[1] + uxn * p + vxn * q);
              w[2] = g[1] - 0.5L * dt * (uyr * g[0] + vyr * g[1] + uyn * p + vyn * q);
              // the second component may use the already corrected first one: same order of accuracy
              alt = g[1] - 0.5L * dt * (uyr * g[0] + vyr * g[1] + uyn * w[1] + vyn * q), twoWays = true;
            }
            break;
          }
          case 2: {
            ok = y >= d.y[cy[i][j]] && y <= d.y[cy[i][j] + 1];
            H(xa[i][j], y, v, g, sc);
            LD vn = a.v(x, y, t0, T), vn1 = a.v(x, y, t1, T), ux0 = a.ux(x, y, t0, T), ux1 = a.ux(x, y, t1, T), vx0 = a.vx(x, y, t0, T), vx1 = a.vx(x, y, t1, T);
            w[0] = v - dt * vn * by;
            LD p = g[0] - dt * (vx0 * by + vn * bxy + ux0 * bx);
            w[1] = g[0] - 0.5L * dt * (vx0 * by + vn * bxy + ux0 * bx + vx1 * by + vn1 * bxy + ux1 * p);
            tol[0] = sc * (3000 * EPS + 8 * de) + nmag * k * 200 * EPS;
            tol[1] = (sc * (8000 * EPS + 40 * de) * (1 / hx + 1 / hy) + nmag * 200 * EPS) * k * k;
            break;
          }
          case 3: {
            ok = x >= d.x[cx[i][j]] && x <= d.x[cx[i][j] + 1];
            H(x, ya[i][j], v, g, sc);
            LD un = a.u(x, y, t0, T), un1 = a.u(x, y, t1, T), uy0 = a.uy(x, y, t0, T), uy1 = a.uy(x, y, t1, T), vy0 = a.vy(x, y, t0, T), vy1 = a.vy(x, y, t1, T);
            w[0] = v - dt * un * bx;
            LD p = g[1] - dt * (uy0 * bx + un * bxy + vy0 * by);
            w[2] = g[1] - 0.5L * dt * (uy0 * bx + un * bxy + vy0 * by + uy1 * bx + un1 * bxy + vy1 * p);
            tol[0] = sc * (3000 * EPS + 8 * de) + nmag * k * 200 * EPS;
            tol[2] = (sc * (8000 * EPS + 40 * de) * (1 / hx + 1 / hy) + nmag * 200 * EPS) * k * k;
            break;
          }
          case 4: {
            w[0] = v - dt * (a.u(x, y, t0, T) * bx + a.v(x, y, t0, T) * by);
            tol[0] = nmag * k * 200 * EPS;
            break;
          }
        }
        if (!ok) continue;
        static const char *const nm[3] = {"phi", "psix", "psiy"};
        LD time = 1 + 8 * ((LD)t + 1) * dt / T;  // rounding of the time argument
        for (int q = 0; q < 3; ++q) {
          LD tq = tol[q] * time + 1e-290L;
          bool good = pbt::close(tmp[q][i][j], w[q], tq) || (q == 2 && twoWays && pbt::close(tmp[q][i][j], alt, tq));
          PBT_CHECK(good, a.name << " " << nm[q] << " at node (" << j << "," << i << ") case " << tr[i][j] << " is " << tmp[q][i][j] << ", expected " << w[q] << " (tolerance " << tq << ") " << info);
        }
        if (tr[i][j] == 1 && g[0] != 0 && d.nx != d.ny) c.nontrivial();
      }
    // next step, as the programs do it
    if (mpi)
      a.mixedMpi(tmp[1], tmp[2], tmp[3], d.nx, d.ny, d.dx, d.dy, 0, cut), a.mixedMpi(tmp[1], tmp[2], tmp[3], d.nx, d.ny, d.dx, d.dy, cut, d.nx);
    else
      a.mixed(tmp[1], tmp[2], tmp[3], d.nx, d.ny, d.dx, d.dy);
    for (int q = 0; q < 4; ++q) m[q] = tmp[q];
    c.label(mpi ? "column ranges" : "full grid");
  }
  c.label(PBT_STR(bt << "/" << ps));
}
PBT_MAIN("C24", "random domains, node counts, times, steps, periods, schemes and nodal data, one to four steps with full-grid or column-range functions; non-trivial: anisotropic node counts with an interior update of non-zero gradient", prop)
