#include "refprog.h"
// C27: the CUDA reference program, run on a host stand-in for the device, writes what the serial program writes.
static void prop(Ctx &c)
{
  const char *sc = getenv("VERIF_SCRATCH");
  std::string base = PBT_STR((sc ? sc : ".") << "/r-" << getpid()), log = base + ".err";
  static const int TILE[] = {4, 1, 2, 3, 5, 8, 16, 7};
  int tile = TILE[c.draw(8)];
  auto extent = [&]() {
    if (c.coin()) return std::max(2, tile * c.integer(1, std::max(1, 12 / tile)));  // a multiple of the tile where possible
    return 2 + c.integer(0, c.coin(1, 6) ? 40 : 13);
  };
  int nx = extent(), ny = extent();
  if (int v = c.suggested(200)) (c.coin() ? nx : ny) = std::max(2, v);
  double x1 = c.coin(2, 3) ? 0 : c.signedReal(1), y1 = c.coin(2, 3) ? 0 : c.signedReal(1), x2 = x1 + (c.coin(2, 3) ? 1 : c.real(0.3, 2)), y2 = y1 + (c.coin(2, 3) ? 1 : c.real(0.3, 2));
  double h = std::min((x2 - x1) / (nx - 1), (y2 - y1) / (ny - 1)), dt = h * (c.coin(1, 8) ? c.real(0.95, 3) : c.real(0.05, 0.95));
  int steps = c.integer(0, c.coin(1, 6) ? 20 : 6), opt = 1 + (int)c.draw(2), ps = c.integer(1, std::max(1, steps + 1));
  if (int v = c.suggested(60)) steps = v;
  if (c.coin()) ps = 1;
  if (opt == 2 && steps == 0) opt = 1;
  double T = c.coin(1, 3) ? 1 : c.real(0.2, 8);
  uint64_t order = c.coin() ? c.bits() >> 1 : 0;
  double Tf = dt * (steps + c.real(0.05, 0.95));
  if (c.coin(1, 4)) dt = ldexp(1.0, (int)floor(log2(dt))), Tf = dt * steps;  // a final time that is a whole number of steps, where the division is exact
  Env env = {{"GS_xlim1", num(x1)}, {"GS_xlim2", num(x2)}, {"GS_ylim1", num(y1)}, {"GS_ylim2", num(y2)}, {"GS_nx", PBT_STR(nx)}, {"GS_ny", PBT_STR(ny)}, {"GS_dt", num(dt)}, {"GS_Tfinal", num(Tf)},
             {"GS_T_period", num(T)}, {"GS_option", PBT_STR(opt)}, {"GS_printstep", PBT_STR(ps)}, {"GS_psischeme", "SuperConsistent"}, {"GS_backtrace_scheme", "RK3"}, {"GS_TileSize", PBT_STR(tile)}, {"GS_ORDER", PBT_STR(order)}};
  std::string info = PBT_STR(nx << "x" << ny << " nodes on [" << x1 << "," << x2 << "]x[" << y1 << "," << y2 << "] dt=" << dt << " steps=" << steps << " T=" << T << " option=" << opt << " printstep=" << ps << " tile=" << tile << " order=" << order);
  bool ship = c.coin(1, 5) || shippedOnly(), shipGrid = false;
  if (ship) shipped(c, env, shipGrid, info);
  PBT_NOTE(c, info);
  int blocks = 1 + (opt == 1 ? steps / ps : steps > 0 ? 1 : 0);
  Dir ds(base + "-serial");
  Proc p;
  start(p, getenv("C27_SERIAL"), ds.d, "", env, log);
  finish(p, log);
  bad(p, "serial program (" + info + ")");
  Out ref = collect(ds.d, "serial program");
  if (ship) {
    auto &q = ref.rows["details.txt"];
    PBT_CHECK(q.size() == 1 && q[0].size() == 11, "serial program: details.txt holds " << ref.text["details.txt"] << " (" << info << ")");
    if (shipGrid) nx = (int)q[0][0], ny = (int)q[0][1];
    steps = (int)q[0][8];
    blocks = 1 + (q[0][10] > 0 ? steps / (int)q[0][10] : 0);
    c.label("some settings as shipped");
  }
  checkShape(ref, nx, ny, blocks, info);
  Dir d(base + "-cuda");
  if (c.coin(1, 4)) stale(d.d);
  Proc q;
  start(q, getenv("C27_CUDA"), d.d, "", env, log);
  finish(q, log);
  bad(q, "CUDA program (" + info + ")");
  compare(ref, collect(d.d, "CUDA program"), "CUDA program (" + info + ")", ny, [&] { return wobbled(getenv("C27_SERIAL"), base, env, ref); });
  c.label(nx % tile || ny % tile ? "tile does not divide the grid" : "tile divides the grid");
  c.label(order ? "shuffled threads" : "threads in order");
  if (steps > 0) c.nontrivial();
}
PBT_MAIN("C27", "random settings, tile sizes and thread orders, CUDA program on the host stand-in against the serial program; non-trivial: at least one step", prop)
