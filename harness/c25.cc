#include "refprog.h"
// C25: the serial, OpenMP, MPI and hybrid reference programs write the same fields.
static void prop(Ctx &c)
{
  const char *sc = getenv("VERIF_SCRATCH");
  std::string base = PBT_STR((sc ? sc : ".") << "/r-" << getpid()), log = base + ".err";
  bool odd = c.coin(1, 8);
  int nx = odd ? 3 + 2 * c.integer(0, 8) : 2 + 2 * c.integer(0, c.coin(1, 6) ? 20 : 7), ny = 2 + c.integer(0, c.coin(1, 6) ? 40 : 13);
  if (int v = c.suggested(200)) (c.coin() || odd ? ny : nx) = std::max(2, v + v % 2);
  double x1 = c.coin(2, 3) ? 0 : c.signedReal(1), y1 = c.coin(2, 3) ? 0 : c.signedReal(1), x2 = x1 + (c.coin(2, 3) ? 1 : c.real(0.3, 2)), y2 = y1 + (c.coin(2, 3) ? 1 : c.real(0.3, 2));
  double h = std::min((x2 - x1) / (nx - 1), (y2 - y1) / (ny - 1)), dt = h * (c.coin(1, 8) ? c.real(0.95, 3) : c.real(0.05, 0.95));
  int steps = c.integer(0, c.coin(1, 6) ? 20 : 6), opt = 1 + (int)c.draw(2), ps = c.integer(1, std::max(1, steps + 1));
  if (int v = c.suggested(60)) steps = v;
  if (c.coin()) ps = 1;
  double T = c.coin(1, 3) ? 1 : c.real(0.2, 8);
  const char *psi = c.coin(2, 3) ? "SuperConsistent" : "Heuns", *bt = c.coin(2, 3) ? "RK3" : "Euler";
  double Tf = dt * (steps + c.real(0.05, 0.95));
  if (c.coin(1, 4)) dt = ldexp(1.0, (int)floor(log2(dt))), Tf = dt * steps;  // a final time that is a whole number of steps, where the division is exact
  Env env = {{"GS_xlim1", num(x1)}, {"GS_xlim2", num(x2)}, {"GS_ylim1", num(y1)}, {"GS_ylim2", num(y2)}, {"GS_nx", PBT_STR(nx)}, {"GS_ny", PBT_STR(ny)}, {"GS_dt", num(dt)}, {"GS_Tfinal", num(Tf)},
             {"GS_T_period", num(T)}, {"GS_option", PBT_STR(opt)}, {"GS_printstep", PBT_STR(ps)}, {"GS_psischeme", psi}, {"GS_backtrace_scheme", bt}};
  std::string info = PBT_STR(nx << "x" << ny << " nodes on [" << x1 << "," << x2 << "]x[" << y1 << "," << y2 << "] dt=" << dt << " steps=" << steps << " T=" << T << " option=" << opt << " printstep=" << ps << " " << psi << "/" << bt);
  bool ship = c.coin(1, 5) || shippedOnly(), shipGrid = false;
  if (ship) shipped(c, env, shipGrid, info);
  PBT_NOTE(c, info);
  bool tsan = !strcmp(getenv("C25_TSAN"), "1");
  int blocks = 1 + (opt == 1 ? steps / ps : steps > 0 ? 1 : 0);
  Dir ds(base + "-serial");
  if (c.coin(1, 4)) stale(ds.d);
  Proc p;
  start(p, getenv("C25_SERIAL"), ds.d, "", env, log);
  finish(p, log);
  bad(p, "serial program (" + info + ")");
  Out ref = collect(ds.d, "serial program");
  if (ship) {
    auto &q = ref.rows["details.txt"];
    PBT_CHECK(q.size() == 1 && q[0].size() == 11, "serial program: details.txt holds " << ref.text["details.txt"] << " (" << info << ")");
    if (shipGrid) nx = (int)q[0][0], ny = (int)q[0][1];
    steps = (int)q[0][8];
    blocks = 1 + (q[0][10] > 0 ? steps / (int)q[0][10] : 0);
    c.label("some settings as shipped");
  }
  checkShape(ref, nx, ny, blocks, info);
  int n = 1 + (int)c.draw(2);
  for (int q = 0; q < n; ++q) {
    int kind = odd || (shipGrid && nx % 2) ? 0 : c.weighted({2, 2, 2});
    static const int TH[] = {1, 2, 3, 5, 8, 4, 7, 13};
    int th = TH[c.draw(7)];
    bool ts = tsan && c.coin(3, 4);
    Dir d(base + "-v");
    if (c.coin(1, 4)) stale(d.d);
    std::string who;
    if (kind == 0) {
      who = PBT_STR("OpenMP program, " << th << " threads (" << info << ")");
      PBT_NOTE(c, "; omp/" << th);
      Proc o;
      start(o, getenv(ts ? "C25_OMP_T" : "C25_OMP_A"), d.d, PBT_STR(th), env, log);
      finish(o, log);
      bad(o, who);
      c.label(ts ? "openmp, race detector" : "openmp, address checker");
    } else {
      bool sync = c.coin();
      who = kind == 1 ? PBT_STR("MPI program (" << info << ")") : PBT_STR("MPI+OpenMP program, " << th << " threads (" << info << ")");
      PBT_NOTE(c, (kind == 1 ? std::string("; mpi") : PBT_STR("; hybrid/" << th)) << (sync ? " synchronous sends" : ""));
      int sv[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) PBT_FAIL("socketpair");
      std::string delay[2];
      int style = (int)c.draw(3);
      for (int r = 0; r < 2; ++r) {
        int first = style == r + 1 ? 4000 + (int)c.draw(6) * 1000 : 0;  // one rank starts late
        delay[r] = PBT_STR(first);
        for (int k = 0; k < 12; ++k) delay[r] += PBT_STR("," << (style == 3 && c.coin(1, 4) ? (int)c.draw(2000) : 0));
      }
      Proc pr[2];
      for (int r = 0; r < 2; ++r) {
        Env e2 = env;
        e2.push_back({"GM_RANK", PBT_STR(r)}), e2.push_back({"GM_FD", PBT_STR(sv[r])}), e2.push_back({"GM_SYNC", sync ? "1" : "0"}), e2.push_back({"GM_DELAY", delay[r]});
        fcntl(sv[r], F_SETFD, 0), fcntl(sv[1 - r], F_SETFD, FD_CLOEXEC);
        const char *exe = kind == 1 ? getenv("C25_MPI") : getenv(ts ? "C25_HYB_T" : "C25_HYB_A");
        start(pr[r], exe, d.d, kind == 1 ? "" : PBT_STR(th), e2, log + PBT_STR(r));
      }
      close(sv[0]), close(sv[1]);
      for (int r = 0; r < 2; ++r) finish(pr[r], log + PBT_STR(r));
      // a rank that failed by itself explains a peer that then lost its partner
      int firstBad = pr[0].err.find("peer is gone") != std::string::npos ? 1 : 0;
      bad(pr[firstBad], PBT_STR(who << " rank " << firstBad)), bad(pr[1 - firstBad], PBT_STR(who << " rank " << 1 - firstBad));
      c.label(kind == 1 ? "mpi" : ts ? "hybrid, race detector" : "hybrid, address checker");
      if (sync) c.label("synchronous sends");
    }
    compare(ref, collect(d.d, who), who, ny, [&] { return wobbled(getenv("C25_SERIAL"), base, env, ref); });
    if (steps > 0 && (th > 1 || kind)) c.nontrivial();
  }
}
PBT_MAIN("C25", "random settings, one to three parallel runs each (variant, threads, send mode, per-rank delays) against the serial program; non-trivial: at least one step with more than one thread or process", prop)
