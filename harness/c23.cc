#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "ref_dom.h"
// C23: building blocks of the reference solver (both committed copies of its headers).
static const RefApi &side(Ctx &c) { return c.coin() ? sideRef() : sideSerial(); }
// the point functions are also in the oldest program's headers
static const RefApi &pointSide(Ctx &c) { return c.coin(1, 4) ? sideOld() : side(c); }
// eighth order central difference of a double valued function
template <class F>
static LD diff(const F &f, double h)
{
  return ((LD)4 / 5 * (f(h) - f(-h)) - (LD)1 / 5 * (f(2 * h) - f(-2 * h)) + (LD)4 / 105 * (f(3 * h) - f(-3 * h)) - (LD)1 / 280 * (f(4 * h) - f(-4 * h))) / h;
}
static double coordinate(Ctx &c)
{
  switch (c.weighted({5, 2, 2, 1})) {
    case 0: return c.real(0, 1);
    case 1: return c.signedReal(3);
    case 2: return (double)c.integer(-4, 8) / 4;
    default: return c.real(0.45, 0.8);
  }
}
static void interpolant(Ctx &c)
{
  const RefApi &a = pointSide(c);
  Data d = genData(c, -3, 3);
  double dx = c.magnitude(-3, 2), dy = c.coin(1, 4) ? dx : c.magnitude(-3, 2), xo = c.coin(1, 3) ? 0 : c.signedReal(5), yo = c.coin(1, 3) ? 0 : c.signedReal(5);
  double fx = c.coin() ? 1 / dx : 1, fy = c.coin() ? 1 / dy : 1;
  double val[4][4];  // [mask][corner]
  for (int m = 0; m < 4; ++m)
    for (int q = 0; q < 4; ++q) val[m][q] = d(key(q & 1, q >> 1, 0), m) * (m & 1 ? fx : 1) * (m & 2 ? fy : 1);
  double keep[4][4];
  memcpy(keep, val, sizeof val);
  PBT_NOTE(c, a.name << " interpolant: cell at (" << xo << "," << yo << ") size " << dx << "x" << dy << ", data kind " << d.kind);
  int np = 1 + (int)c.draw(6);
  for (int t = 0; t < np; ++t) {
    double e[2];
    for (double &v : e) switch (c.draw(6)) {
        case 0: v = 0; break;
        case 1: v = 1; break;
        case 2: v = 0.5; break;
        case 3: v = c.real(-0.5, 1.5); break;
        default: v = c.real(0, 1); break;
      }
    double x = xo + e[0] * dx, y = yo + e[1] * dy;
    LD eta[2] = {((LD)x - xo) / dx, ((LD)y - yo) / dy}, dd[2] = {dx, dy}, w, gr[3], sc;
    long base[2] = {0, 0};
    hermiteCell(2, [&](int i, int j, int, int m) { return val[m][i + 2 * j]; }, base, eta, dd, w, gr, sc);
    LD de = EPS * 4 * ((fabsl((LD)x) + fabsl((LD)xo)) / dx + (fabsl((LD)y) + fabsl((LD)yo)) / dy);  // coordinates are known to rounding
    double p = a.hp(val[0], val[1], val[2], val[3], x, y, xo, yo, dx, dy), px = a.hermx(val[0], val[1], val[2], val[3], x, y, xo, yo, dx, dy), py = a.hermy(val[0], val[1], val[2], val[3], x, y, xo, yo, dx, dy);
    LD tol = sc * (2000 * EPS + 4 * de) + 1e-290L, tg = sc * (8000 * EPS + 24 * de) + 1e-290L;
    PBT_CHECK(pbt::close(p, w, tol), a.name << " hp is " << p << ", expected " << w << " at local (" << eta[0] << "," << eta[1] << ")");
    PBT_CHECK(pbt::close(px, gr[0], tg / dx), a.name << " hermx is " << px << ", expected " << gr[0] << " at local (" << eta[0] << "," << eta[1] << ")");
    PBT_CHECK(pbt::close(py, gr[1], tg / dy), a.name << " hermy is " << py << ", expected " << gr[1] << " at local (" << eta[0] << "," << eta[1] << ")");
    PBT_CHECK(!memcmp(keep, val, sizeof val), a.name << " interpolant modified its corner data");
    if (d.kind != 5 && dx != dy && w != 0) c.nontrivial();
  }
  c.label("interpolant");
}
// One cell edge.  Slopes are given per cell or per unit of length: with unit cells, or without slopes, both mean the same.
static void interpolant1(Ctx &c)
{
  const RefApi &a = pointSide(c);
  if (!a.hp1) throw pbt::Discard{};
  Data d = genData(c, -3, 3);
  bool unit = c.coin();
  double dx = unit ? 1 : c.magnitude(-3, 2), xo = c.coin(1, 3) ? 0 : c.signedReal(5);
  double p[2] = {d(0, 0), d(1, 0)}, s[2] = {0, 0};
  if (unit) s[0] = d(0, 1), s[1] = d(1, 1);
  double e = c.coin(1, 3) ? (double)c.draw(3) / 2 : c.real(-0.5, 1.5), x = xo + e * dx;
  PBT_NOTE(c, a.name << " 1D interpolant: cell at " << xo << " size " << dx << " local " << e << " values " << p[0] << "," << p[1] << " slopes " << s[0] << "," << s[1]);
  LD t = ((LD)x - xo) / dx, w = p[0] * (1 - 3 * t * t + 2 * t * t * t) + p[1] * (3 * t * t - 2 * t * t * t) + s[0] * (t - 2 * t * t + t * t * t) + s[1] * (t * t * t - t * t);
  LD sc = 10 * (fabsl((LD)p[0]) + fabsl((LD)p[1]) + fabsl((LD)s[0]) + fabsl((LD)s[1])), de = 4 * EPS * (fabsl((LD)x) + fabsl((LD)xo)) / dx;
  double got = a.hp1(p, s, x, xo, dx);
  PBT_CHECK(pbt::close(got, w, sc * (100 * EPS + de) + 1e-290L), a.name << " hp1D is " << got << ", expected " << w);
  if (unit && p[0] != p[1]) c.nontrivial();
  c.label("1D interpolant");
}
static void velocity(Ctx &c)
{
  const RefApi &a = pointSide(c);
  double x = coordinate(c), y = coordinate(c), T = c.coin(1, 3) ? 8 : c.magnitude(-1, 2), t = c.coin(1, 4) ? 0 : c.coin(1, 3) ? T * c.integer(0, 4) / 4 : T * c.signedReal(2);
  PBT_NOTE(c, a.name << " velocity at (" << x << "," << y << ") t=" << t << " T=" << T);
  const double h = 1.0 / 1024;
  const LD tol = 1e-9L;
  LD ux = diff([&](double s) { return a.u(x + s, y, t, T); }, h), uy = diff([&](double s) { return a.u(x, y + s, t, T); }, h);
  LD vx = diff([&](double s) { return a.v(x + s, y, t, T); }, h), vy = diff([&](double s) { return a.v(x, y + s, t, T); }, h);
  PBT_CHECK(pbt::close(a.ux(x, y, t, T), ux, tol), a.name << " gradUx is " << a.ux(x, y, t, T) << ", derivative is " << ux);
  PBT_CHECK(pbt::close(a.uy(x, y, t, T), uy, tol), a.name << " gradUy is " << a.uy(x, y, t, T) << ", derivative is " << uy);
  PBT_CHECK(pbt::close(a.vx(x, y, t, T), vx, tol), a.name << " gradVx is " << a.vx(x, y, t, T) << ", derivative is " << vx);
  PBT_CHECK(pbt::close(a.vy(x, y, t, T), vy, tol), a.name << " gradVy is " << a.vy(x, y, t, T) << ", derivative is " << vy);
  PBT_CHECK(pbt::close(a.ux(x, y, t, T) + a.vy(x, y, t, T), 0, 1e-12L), a.name << " velocity is not divergence free: " << a.ux(x, y, t, T) + a.vy(x, y, t, T));
  LD pt = 40 * EPS * (1 + fabsl((LD)t) / T * 4);
  PBT_CHECK(pbt::close(a.u(x, y, T - t, T), -a.u(x, y, t, T), pt) && pbt::close(a.v(x, y, T - t, T), -a.v(x, y, t, T), pt), a.name << " flow does not reverse about half its period");
  double wall = c.integer(-1, 2);
  PBT_CHECK(pbt::close(a.u(wall, y, t, T), 0, 1e-14L) && pbt::close(a.v(x, wall, t, T), 0, 1e-14L), a.name << " flow crosses the box wall at " << wall);
  if (fabsl(ux) > 1e-3L && fabsl(uy - vx) > 1e-3L) c.nontrivial();
  c.label("velocity");
}
static void initial(Ctx &c)
{
  const RefApi &a = pointSide(c);
  double x = coordinate(c), y = coordinate(c);
  PBT_NOTE(c, a.name << " initial level set at (" << x << "," << y << ")");
  const double h = 1.0 / 128;
  const LD tol = 1e-9L;
  LD px = diff([&](double s) { return a.init(x + s, y); }, h), py = diff([&](double s) { return a.init(x, y + s); }, h), pxy = diff([&](double s) { return a.initx(x, y + s); }, h),
     pyx = diff([&](double s) { return a.inity(x + s, y); }, h);
  PBT_CHECK(pbt::close(a.initx(x, y), px, tol), a.name << " derivxinit is " << a.initx(x, y) << ", derivative is " << px);
  PBT_CHECK(pbt::close(a.inity(x, y), py, tol), a.name << " derivyinit is " << a.inity(x, y) << ", derivative is " << py);
  PBT_CHECK(pbt::close(a.initxy(x, y), pxy, tol) && pbt::close(a.initxy(x, y), pyx, tol), a.name << " derivxyinit is " << a.initxy(x, y) << ", derivative is " << pxy << " / " << pyx);
  if (fabsl(pxy) > 1e-4L) c.nontrivial();
  c.label("initial level set");
}
static void fields(Ctx &c)
{
  const RefApi &a = side(c);
  Dom d = genDom(c, a);
  RG p, px, py, pxy, u, v;
  double T = c.coin(1, 3) ? 8 : c.real(0.2, 20), t = c.real(0, 20);
  a.alloc(p, px, py, pxy, d.x, d.y, d.nx, d.ny);
  a.velocity(u, v, d.nx, d.ny, d.x, d.y, t, T);
  const RG *all[6] = {&p, &px, &py, &pxy, &u, &v};
  static const char *const nm[6] = {"phi", "psix", "psiy", "psixy", "Velocity_x", "Velocity_y"};
  for (int q = 0; q < 6; ++q) {
    PBT_CHECK((int)all[q]->size() == d.ny, a.name << " " << nm[q] << " rows");
    for (auto &r : *all[q]) PBT_CHECK((int)r.size() == d.nx, a.name << " " << nm[q] << " columns");
  }
  for (int i = 0; i < d.ny; ++i)
    for (int j = 0; j < d.nx; ++j) {
      double w[6] = {a.init(d.x[j], d.y[i]), a.initx(d.x[j], d.y[i]), a.inity(d.x[j], d.y[i]), a.initxy(d.x[j], d.y[i]), a.u(d.x[j], d.y[i], t, T), a.v(d.x[j], d.y[i], t, T)};
      for (int q = 0; q < 6; ++q) PBT_CHECK(pbt::close((*all[q])[i][j], w[q], 1e-14L), a.name << " " << nm[q] << " at node (" << j << "," << i << ") is " << (*all[q])[i][j] << ", expected " << w[q]);
    }
  c.label("initial fields");
  if (d.nx != d.ny) c.nontrivial();
  if (d.nx > 20 || d.ny > 20 || !c.coin(1, 3)) return;
  // the writer appends one block of ny comma separated lines of nx values per call
  static pid_t own = 0;  // the writer uses the working directory: one per process
  if (own != getpid()) {
    const char *sc = getenv("VERIF_SCRATCH");
    std::string dir = PBT_STR((sc ? sc : ".") << "/w-" << getpid());
    mkdir(dir.c_str(), 0755);
    if (chdir(dir.c_str())) PBT_FAIL("no scratch directory");
    own = getpid();
  }
  for (int q = 0; q < 6; ++q) unlink((std::string(nm[q]) + ".txt").c_str());
  int blocks = 1 + (int)c.draw(2);
  Data dat = genData(c, -2, 2);
  std::vector<RG> want[6];
  for (int b = 0; b < blocks; ++b) {
    RG s[4];
    for (int q = 0; q < 4; ++q) {
      s[q].assign(d.ny, RV(d.nx));
      for (int i = 0; i < d.ny; ++i)
        for (int j = 0; j < d.nx; ++j) s[q][i][j] = dat(key(j, i, 0), 10 * b + q);
    }
    double tb = t + b * 0.37;
    a.print(s[0], s[1], s[2], s[3], d.nx, d.ny, d.x, d.y, tb, T);
    a.velocity(u, v, d.nx, d.ny, d.x, d.y, tb, T);
    for (int q = 0; q < 4; ++q) want[q].push_back(s[q]);
    want[4].push_back(u), want[5].push_back(v);
  }
  for (int q = 0; q < 6; ++q) {
    std::ifstream f(std::string(nm[q]) + ".txt");
    PBT_CHECK(f.good(), a.name << " writer made no " << nm[q] << ".txt");
    std::string line;
    std::vector<std::vector<double>> rows;
    while (std::getline(f, line)) {
      if (line.empty()) continue;
      rows.emplace_back();
      std::stringstream ss(line);
      std::string cell;
      while (std::getline(ss, cell, ',')) {
        char *e;
        rows.back().push_back(strtod(cell.c_str(), &e));
        PBT_CHECK(e != cell.c_str() && *e == 0, a.name << " " << nm[q] << ".txt holds '" << cell << "'");
      }
    }
    PBT_CHECK((int)rows.size() == blocks * d.ny, a.name << " " << nm[q] << ".txt has " << rows.size() << " lines for " << blocks << " blocks of " << d.ny);
    for (int b = 0; b < blocks; ++b)
      for (int i = 0; i < d.ny; ++i) {
        PBT_CHECK((int)rows[b * d.ny + i].size() == d.nx, a.name << " " << nm[q] << ".txt line has " << rows[b * d.ny + i].size() << " values");
        for (int j = 0; j < d.nx; ++j) {
          double w = want[q][b][i][j];
          PBT_CHECK(pbt::close(rows[b * d.ny + i][j], w, 0.6e-10L + 1e-15L * fabsl((LD)w)), a.name << " " << nm[q] << ".txt block " << b << " node (" << j << "," << i << ") reads " << rows[b * d.ny + i][j] << ", expected " << w);
        }
      }
  }
  for (int q = 0; q < 6; ++q) unlink((std::string(nm[q]) + ".txt").c_str());
  c.label("writer");
}
static void mixed(Ctx &c)
{
  const RefApi &a = side(c);
  Dom d = genDom(c, a);
  // phi = f(x) + g(y) + C xy + A x^2 y + B x y^2 + E x^2 y^2, coordinates relative to the lower corner
  double C = c.signedReal(2), A = c.coin(1, 3) ? 0 : c.signedReal(2), B = c.coin(1, 3) ? 0 : c.signedReal(2), E = c.coin() ? 0 : c.signedReal(2);
  Data dat = genData(c, -1, 1);
  bool sep = c.coin();
  RG px(d.ny, RV(d.nx)), py = px, pxy = px;
  LD sc = 0;
  for (int i = 0; i < d.ny; ++i)
    for (int j = 0; j < d.nx; ++j) {
      LD X = (LD)d.x[j] - d.x1, Y = (LD)d.y[i] - d.y1;
      LD fx = sep ? dat(key(j, 0, 0), 1) : 0, gy = sep ? dat(key(0, i, 0), 2) : 0;
      px[i][j] = (double)(fx + C * Y + 2 * A * X * Y + B * Y * Y + 2 * E * X * Y * Y);
      py[i][j] = (double)(gy + C * X + A * X * X + 2 * B * X * Y + 2 * E * X * X * Y);
      pxy[i][j] = dat(key(j, i, 0), 3);
      sc = std::max(sc, std::max(fabsl((LD)px[i][j]), fabsl((LD)py[i][j])));
    }
  RG px0 = px, py0 = py, m = pxy;
  LD tol = (40 * EPS * sc) * (1 / (LD)d.dx + 1 / (LD)d.dy) + 1e-290L;
  // nodes are themselves rounded: the differences of X, Y carry that error
  for (int ax = 0; ax < 2; ++ax) {
    LD big = ax ? fabsl((LD)d.y1) + fabsl((LD)d.y2) : fabsl((LD)d.x1) + fabsl((LD)d.x2), h = ax ? d.dy : d.dx, L = (LD)d.x2 - d.x1 + d.y2 - d.y1;
    tol += 40 * EPS * big / h * (fabsl((LD)C) + 4 * (fabsl((LD)A) + fabsl((LD)B)) * L + 8 * fabsl((LD)E) * L * L);
  }
  int cut = c.integer(0, d.nx);
  bool mpi = c.coin();
  if (mpi) {
    RG half = m;
    a.mixedMpi(px, py, half, d.nx, d.ny, d.dx, d.dy, 0, cut);
    for (int i = 0; i < d.ny; ++i)
      for (int j = cut; j < d.nx; ++j) PBT_CHECK(half[i][j] == pxy[i][j], a.name << " range [0," << cut << ") changed node (" << j << "," << i << ")");
    a.mixedMpi(px, py, m, d.nx, d.ny, d.dx, d.dy, cut, d.nx);
    for (int i = 0; i < d.ny; ++i)
      for (int j = 0; j < cut; ++j) {
        PBT_CHECK(m[i][j] == pxy[i][j], a.name << " range [" << cut << "," << d.nx << ") changed node (" << j << "," << i << ")");
        m[i][j] = half[i][j];
      }
  } else
    a.mixed(px, py, m, d.nx, d.ny, d.dx, d.dy);
  PBT_CHECK(px == px0 && py == py0, a.name << " mixed derivative update modified the gradients");
  for (int i = 0; i < d.ny; ++i)
    for (int j = 0; j < d.nx; ++j) {
      bool corner = (i == 0 || i == d.ny - 1) && (j == 0 || j == d.nx - 1);
      if (corner && E != 0) continue;
      LD X = (LD)d.x[j] - d.x1, Y = (LD)d.y[i] - d.y1, w = C + 2 * A * X + 2 * B * Y + 4 * E * X * Y;
      PBT_CHECK(pbt::close(m[i][j], w, tol), a.name << (mpi ? " (column range)" : "") << " mixed derivative at node (" << j << "," << i << ") of " << d.nx << "x" << d.ny << " is " << m[i][j] << ", expected " << w << " (tolerance " << tol
                                                    << ")");
    }
  // arbitrary data: full, column-range and both copies agree
  Data any = genData(c, -2, 2);
  LD s2 = 0;
  for (int i = 0; i < d.ny; ++i)
    for (int j = 0; j < d.nx; ++j) px[i][j] = any(key(j, i, 0), 5), py[i][j] = any(key(j, i, 0), 6), s2 = std::max(s2, std::max(fabsl((LD)px[i][j]), fabsl((LD)py[i][j])));
  RG r[4] = {pxy, pxy, pxy, pxy};
  sideRef().mixed(px, py, r[0], d.nx, d.ny, d.dx, d.dy);
  sideSerial().mixed(px, py, r[1], d.nx, d.ny, d.dx, d.dy);
  for (int q = 0; q < 2; ++q) {
    const RefApi &b = q ? sideSerial() : sideRef();
    b.mixedMpi(px, py, r[2 + q], d.nx, d.ny, d.dx, d.dy, 0, cut);
    b.mixedMpi(px, py, r[2 + q], d.nx, d.ny, d.dx, d.dy, cut, d.nx);
  }
  LD t2 = 40 * EPS * s2 * (1 / (LD)d.dx + 1 / (LD)d.dy) + 1e-290L;
  for (int q = 1; q < 4; ++q)
    for (int i = 0; i < d.ny; ++i)
      for (int j = 0; j < d.nx; ++j)
        PBT_CHECK(pbt::close(r[q][i][j], r[0][i][j], t2), "mixed derivative variants disagree at node (" << j << "," << i << ") of " << d.nx << "x" << d.ny << ": " << r[0][i][j] << " and " << r[q][i][j] << " (variant " << q << ")");
  if (C != 0 && d.nx != d.ny) c.nontrivial();
  c.label("mixed derivative");
}
static void library(Ctx &c)
{
  const RefApi &a = pointSide(c);
  GridSpec s = genHermGrid(c, 2);
  auto g = makeGrid<2>(s);
  gc::Levelset<G<2>, double> ls(*g);
  HermiteData h = genHermiteData(c, s);
  setPrev<2>(ls, s, h);
  setRest<2>(ls, s, genData(c));
  PBT_NOTE(c, "library against " << a.name << ": " << s.str());
  Herm<2> herm;
  int np = 1 + (int)c.draw(5);
  for (int t = 0; t < np; ++t) {
    V3 x = genPoint<2>(c, s);
    x[2] = 0;
    auto r = herm.interpolate(*g, x, ls);
    RefEval w = refEval<2>(s, h, x);  // for the tolerances
    long b[2];
    for (int q = 0; q < 2; ++q) {
      b[q] = (long)floorl(((LD)x[q] - s.node(q, 0)) / s.dx(q));
      b[q] = std::max<long>(-s.pad, std::min<long>(b[q], s.n[q] + s.pad - 2));
    }
    double val[4][4];
    for (int m = 0; m < 4; ++m)
      for (int q = 0; q < 4; ++q) val[m][q] = h((int)b[0] + (q & 1), (int)b[1] + (q >> 1), 0, m);
    double xo = (double)s.node(0, b[0]), yo = (double)s.node(1, b[1]), dx = (double)s.dx(0), dy = (double)s.dx(1);
    double p = a.hp(val[0], val[1], val[2], val[3], x[0], x[1], xo, yo, dx, dy), px = a.hermx(val[0], val[1], val[2], val[3], x[0], x[1], xo, yo, dx, dy), py = a.hermy(val[0], val[1], val[2], val[3], x[0], x[1], xo, yo, dx, dy);
    PBT_CHECK(pbt::close(p, r.phi_interpolated, 4 * w.tolV), a.name << " value " << p << " and library value " << r.phi_interpolated << " differ at (" << x << ") of " << s.str());
    PBT_CHECK(pbt::close(px, r.psi_interpolated[0], 4 * w.tolG[0]) && pbt::close(py, r.psi_interpolated[1], 4 * w.tolG[1]),
              a.name << " gradient (" << px << "," << py << ") and library gradient (" << r.psi_interpolated << ") differ at (" << x << ") of " << s.str());
    if (h.d.kind != 5) c.nontrivial();
  }
  c.label("library differential");
}
static void prop(Ctx &c)
{
  switch (c.weighted({4, 3, 2, 2, 3, 3, 1})) {
    case 0: return interpolant(c);
    case 1: return velocity(c);
    case 2: return initial(c);
    case 3: return fields(c);
    case 4: return mixed(c);
    case 5: return library(c);
    default: return interpolant1(c);
  }
}
PBT_MAIN("C23", "all header copies: random corner data, points, times, periods, domains and nodal data; non-trivial: varied data on anisotropic cells/grids, non-zero derivatives", prop)
