// C31: a run of the serial reference program is the run its settings describe.
// The expected blocks are computed by composing the solver's own functions (each judged by C23/C24) in this process; what is judged here is the
// program: number, order and times of the steps and blocks, the data carried from step to step, the files and their contents.
#include "refprog.h"
#include "ref_side.h"
static const double PI = acos(-1.0);
static RG zeros(int nx, int ny) { return RG(ny, RV(nx, 0.0)); }
static RI izeros(int nx, int ny) { return RI(ny, std::vector<unsigned int>(nx, 0)); }
static void prop(Ctx &c)
{
  const char *sc = getenv("VERIF_SCRATCH");
  const RefApi &a = sideSerial();
  std::string base = PBT_STR((sc ? sc : ".") << "/r-" << getpid()), log = base + ".err";
  int nx = 2 + c.integer(0, c.coin(1, 6) ? 60 : 13), ny = 2 + c.integer(0, c.coin(1, 6) ? 60 : 13);
  if (int v = c.suggested(200)) (c.coin() ? nx : ny) = std::max(2, v);
  double x1 = c.coin(2, 3) ? 0 : c.signedReal(1), y1 = c.coin(2, 3) ? 0 : c.signedReal(1), x2 = x1 + (c.coin(2, 3) ? 1 : c.real(0.3, 2)), y2 = y1 + (c.coin(2, 3) ? 1 : c.real(0.3, 2));
  double h = std::min((x2 - x1) / (nx - 1), (y2 - y1) / (ny - 1)), dt = h * (c.coin(1, 8) ? c.real(0.95, 3) : c.real(0.02, 0.95));
  int steps = c.integer(0, c.coin(1, 4) ? 40 : 8), opt = 1 + (int)c.draw(c.coin(1, 4) ? 5 : 2), ps = c.integer(1, std::max(1, steps + 1));
  if (int v = c.suggested(60)) steps = v;
  if (c.coin()) ps = 1 + (int)c.draw(3);
  double T = c.coin(1, 3) ? 1 : c.real(0.2, 8), Tf;
  if (c.coin(1, 4)) {  // a final time that is a whole number of steps, where the division is exact
    dt = ldexp(1.0, -(4 + (int)c.draw(5)));
    Tf = dt * steps;
  } else
    Tf = dt * (steps + c.real(0.05, 0.95));
  char psi[32], bt[16];
  strcpy(psi, c.coin() ? "SuperConsistent" : "Heuns"), strcpy(bt, c.coin() ? "RK3" : "Euler");
  Env env = {{"GS_xlim1", num(x1)}, {"GS_xlim2", num(x2)}, {"GS_ylim1", num(y1)}, {"GS_ylim2", num(y2)}, {"GS_nx", PBT_STR(nx)}, {"GS_ny", PBT_STR(ny)}, {"GS_dt", num(dt)}, {"GS_Tfinal", num(Tf)},
             {"GS_T_period", num(T)}, {"GS_option", PBT_STR(opt)}, {"GS_printstep", PBT_STR(ps)}, {"GS_psischeme", psi}, {"GS_backtrace_scheme", bt}};
  std::string info = PBT_STR(nx << "x" << ny << " nodes on [" << x1 << "," << x2 << "]x[" << y1 << "," << y2 << "] dt=" << dt << " steps=" << steps << " T=" << T << " option=" << opt << " printstep=" << ps << " " << psi << "/" << bt);
  if (shippedOnly()) {
    bool grid;
    shipped(c, env, grid, info);
    nx = ny = 128, x1 = y1 = 0, x2 = y2 = 1, dt = 0.5 / 128, steps = 256, T = 1, opt = 1, ps = 16;
    strcpy(psi, "SuperConsistent"), strcpy(bt, "RK3");
  }
  PBT_NOTE(c, info);
  if (opt != 1) ps = steps;
  Dir ds(base + "-serial");
  int runs = c.coin(1, 6) ? 2 : 1;  // a second run in the same directory replaces the files of the first
  if (c.coin(1, 4)) stale(ds.d);
  for (int r = 0; r < runs; ++r) {
    Proc p;
    start(p, getenv("C25_SERIAL"), ds.d, "", env, log);
    finish(p, log);
    bad(p, "serial program (" + info + ")");
  }
  Out got = collect(ds.d, "serial program");
  // details: counts, spacings, limits, steps, step size, block interval
  double dx = (x2 - x1) / (nx - 1), dy = (y2 - y1) / (ny - 1);
  {
    auto &q = got.rows["details.txt"];
    double want[] = {(double)nx, (double)ny, dx, dy, x1, x2, y1, y2, (double)steps, dt, (double)ps};
    static const char *const what[] = {"nodes along x", "nodes along y", "spacing along x", "spacing along y", "lower x limit", "upper x limit", "lower y limit", "upper y limit", "number of steps", "time step", "block interval"};
    PBT_CHECK(q.size() == 1 && q[0].size() == 11, "details.txt holds " << got.text["details.txt"] << " (" << info << ")");
    for (int k = 0; k < 11; ++k) PBT_CHECK(fabs(q[0][k] - want[k]) <= 1e-10, "details.txt: " << what[k] << " is " << q[0][k] << ", should be " << want[k] << " (" << info << ")");
  }
  // the run
  RV x, y;
  a.nodes(x, y, x1, y1, dx, dy, nx, ny);
  RG m[4], n[4];  // n: the same run with rounding-size perturbations, to learn how rounding grows under these settings
  a.alloc(m[0], m[1], m[2], m[3], x, y, nx, ny);
  for (int q = 0; q < 4; ++q) n[q] = m[q];
  RG tmp[4] = {m[0], m[1], m[2], m[3]}, ntmp[4] = {m[0], m[1], m[2], m[3]};
  int block = 0;
  uint64_t noise = 1;
  LD slack[4] = {0, 0, 0, 0};
  auto check = [&](double time) {
    for (int f = 0; f < 6; ++f) {
      auto &rows = got.rows[FILES[f]];
      PBT_CHECK((int)rows.size() >= (block + 1) * ny, FILES[f] << " has " << rows.size() << " lines, block " << block << " needs " << (block + 1) * ny << " (" << info << ")");
      for (int i = 0; i < ny; ++i) {
        auto &row = rows[block * ny + i];
        PBT_CHECK((int)row.size() == nx, FILES[f] << " block " << block << " row " << i << " has " << row.size() << " values (" << info << ")");
        for (int j = 0; j < nx; ++j) {
          double w = f < 4 ? m[f][i][j] : f == 4 ? sin(PI * x[j]) * sin(PI * x[j]) * sin(2 * PI * y[i]) * cos(PI * time / T) : -sin(PI * y[i]) * sin(PI * y[i]) * sin(2 * PI * x[j]) * cos(PI * time / T);
          PBT_CHECK(fabsl((LD)row[j] - w) <= 2e-10L + (f < 4 ? slack[f] : 1e-12L), FILES[f] << " block " << block << " (time " << time << ") node (" << j << "," << i << ") is " << row[j] << ", the run described by the settings has " << w << " (" << info << ")");
        }
      }
    }
    ++block;
  };
  check(0);
  for (int t = 0; t < steps; ++t) {
    if (shippedOnly() && block == 3) {  // the rest of a long run: only that it is there
      block += (steps - t) / ps;
      break;
    }
    RG xa = zeros(nx, ny), ya = zeros(nx, ny);
    RI cx = izeros(nx, ny), cy = izeros(nx, ny), tr = izeros(nx, ny);
    a.trace(x, y, xa, ya, t, dt, T, bt);
    a.locate(x, y, xa, ya, cx, cy, tr, x1, x2, y1, y2);
    a.update(x, y, xa, ya, cx, cy, tr, t, dt, tmp[0], tmp[1], tmp[2], tmp[3], m[0], m[1], m[2], m[3], psi, bt, T);
    a.mixed(tmp[1], tmp[2], tmp[3], nx, ny, dx, dy);
    for (int q = 0; q < 4; ++q)
      for (auto &r : n[q])
        for (double &v : r) noise = noise * 6364136223846793005ull + 1442695040888963407ull, v *= 1 + ((noise >> 40) % 33 - 16.0) * 2.2e-16;
    a.update(x, y, xa, ya, cx, cy, tr, t, dt, ntmp[0], ntmp[1], ntmp[2], ntmp[3], n[0], n[1], n[2], n[3], psi, bt, T);
    a.mixed(ntmp[1], ntmp[2], ntmp[3], nx, ny, dx, dy);
    for (int q = 0; q < 4; ++q) {
      m[q] = tmp[q], n[q] = ntmp[q];
      LD d = 0, big = 0;
      for (int i = 0; i < ny; ++i)
        for (int j = 0; j < nx; ++j) {
          if (!(fabs(m[q][i][j]) <= 1e7)) throw pbt::Discard{};
          d = std::max(d, fabsl((LD)m[q][i][j] - n[q][i][j])), big = std::max(big, fabsl((LD)m[q][i][j]));
        }
      slack[q] = std::max(slack[q], 200 * d + 1e-13L * big);
      if (slack[q] > 1e-4) throw pbt::Discard{};  // rounding decides the result
    }
    if ((t + 1) % ps == 0) check((t + 1) * dt);
  }
  for (int f = 0; f < 6; ++f) PBT_CHECK((int)got.rows[FILES[f]].size() == block * ny, FILES[f] << " has " << got.rows[FILES[f]].size() << " lines for " << block << " blocks of " << ny << " rows (" << info << ")");
  c.label(opt == 1 ? "animation" : "final state only");
  if (runs > 1) c.label("run twice");
  if (steps > 1 && block > 1) c.nontrivial();
}
PBT_MAIN("C31", "random settings of the serial program (domain, nodes, step, final time, block interval, option, schemes, period), one or two runs per directory; non-trivial: more than one step and a block after the initial one", prop)
