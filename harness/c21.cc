#include <dirent.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <map>
#include <set>

#include "yaml_gen.h"
using pbt::LD;
// C21: the advection program end to end.  Each case runs the real program (production build, sanitized) one to three
// times in a fresh directory of the check's scratch area.
static void files(const std::string &base, const std::string &rel, std::set<std::string> &out)
{
  DIR *d = opendir((base + "/" + rel).c_str());
  if (!d) return;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string r = rel.empty() ? n : rel + "/" + n;
    struct stat sb;
    if (lstat((base + "/" + r).c_str(), &sb)) continue;
    if (S_ISDIR(sb.st_mode)) {
      files(base, r, out);
      out.insert(r + "/");
    } else
      out.insert(r);
  }
  closedir(d);
}
static void wipe(const std::string &base)
{
  std::set<std::string> f;
  files(base, "", f);
  for (auto it = f.rbegin(); it != f.rend(); ++it)
    if (it->back() != '/') unlink((base + "/" + *it).c_str());
  // children sort after "dir/" only by prefix, so remove directories longest first
  std::vector<std::string> ds;
  for (auto &x : f)
    if (x.back() == '/') ds.push_back(x);
  std::sort(ds.begin(), ds.end(), [](const std::string &a, const std::string &b) { return a.size() > b.size(); });
  for (auto &x : ds) rmdir((base + "/" + x).c_str());
  rmdir(base.c_str());
}
static std::string slurp(const std::string &fn)
{
  std::ifstream f(fn, std::ios::binary);
  std::stringstream o;
  o << f.rdbuf();
  return o.str();
}
struct Run {
  int status;
  std::string out, err;
};
static Run runApp(const std::string &cwd, const std::vector<std::string> &args, const std::string &io)
{
  const char *app = getenv("C21_APP");
  if (!app) PBT_FAIL("C21_APP not set");
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {5, 7};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGALRM, SIG_DFL);
    alarm(0);
    if (chdir(cwd.c_str())) _exit(120);
    int o = open((io + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open((io + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0), dup2(o, 1), dup2(e, 2);
    std::vector<char *> av;
    av.push_back((char *)app);
    for (auto &a : args) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    execv(app, av.data());
    _exit(121);
  }
  Run r;
  while (waitpid(p, &r.status, 0) < 0 && errno == EINTR) {
  }
  r.out = slurp(io + ".out"), r.err = slurp(io + ".err");
  unlink((io + ".out").c_str()), unlink((io + ".err").c_str());
  return r;
}
static std::string lit(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
struct Conf {
  double lo[3], hi[3], cen[3], lcen[3], radius, dt, end, start;
  int n[3];
  bool dyn;
  std::string outdir;
  LD dx(int a) const { return ((LD)hi[a] - lo[a]) / n[a]; }
  LD node(int a, int i) const { return lo[a] + (i + 0.5L) * dx(a); }
};
static const LD W = 3.14159265358979323846264338327950288L / 3.15L;
static Conf gen(Ctx &c)
{
  Conf f;
  f.dyn = c.coin();
  for (int a = 0; a < 2; ++a) {
    double ext = f.dyn ? c.real(0.2, 1.4) : c.coin(1, 3) ? c.magnitude(-2, 2) : c.real(0.5, 4);
    f.lo[a] = c.coin(1, 3) ? -(double)c.integer(0, 2) : c.signedReal(3);
    f.hi[a] = f.lo[a] + ext;
    f.n[a] = c.coin(1, 6) ? c.integer(1, c.coin(1, 6) ? 150 : 40) : c.integer(1, 9);
    f.cen[a] = c.coin(2, 3) ? f.lo[a] + ext * c.real(0, 1) : f.lo[a] + ext * c.real(-0.3, 1.3);
    f.lcen[a] = f.lo[a] + ext * c.real(-0.2, 1.2);
  }
  if (int v = c.suggested(200)) f.n[c.draw(2)] = v;
  f.n[2] = 1;
  f.lo[2] = c.coin(1, 3) ? 0 : c.signedReal(2);
  f.hi[2] = f.lo[2] + (c.coin(1, 3) ? 0.0 : c.coin(1, 4) ? c.real(1e-9, 1e-3) : c.real(0.1, 3));
  f.cen[2] = c.signedReal(2), f.lcen[2] = c.coin() ? 0 : c.signedReal(2);
  f.radius = c.real(0.01, 2);
  LD uv[2] = {0, 0};  // largest |u|, |v|
  for (int e = 0; e < 2; ++e) {
    uv[0] = std::max(uv[0], W * fabsl((LD)f.cen[1] - (e ? f.hi[1] : f.lo[1])));
    uv[1] = std::max(uv[1], W * fabsl((LD)f.cen[0] - (e ? f.hi[0] : f.lo[0])));
  }
  LD lim = std::min(f.dx(0) / std::max(uv[0], 1e-12L), f.dx(1) / std::max(uv[1], 1e-12L)) * 0.9L;
  LD real_dt;
  if (f.dyn) {
    real_dt = std::min(f.dx(0), f.dx(1)) * 0.5L;
    if (real_dt > lim) throw pbt::Discard{};
    f.dt = c.real(0.001, 1);
  } else {
    f.dt = (double)(lim * c.real(0.02, 1));
    real_dt = f.dt;
  }
  int steps = c.integer(0, c.coin(1, 5) ? 40 : 6);
  if (c.coin(1, 40)) steps = c.integer(40, 250);
  if (int v = c.suggested(400)) steps = v;
  f.end = (double)(real_dt * (c.coin() ? (LD)steps : (LD)(steps + c.real(0, 1))));
  if (c.coin(1, 12)) f.end = -f.end;
  f.start = c.coin(2, 3) ? 0 : c.signedReal(1);
  return f;
}
static std::string genDir(Ctx &c, const std::string &cwd)
{
  switch (c.weighted({3, 3, 2, 1, 1, 1, 1})) {
    case 0: return "out";
    case 1: return "project-1/case-1";
    case 2: return "a/b/c/d";
    case 3: return "./rel/x";
    case 4: return "trail/";
    case 5: return cwd + "/abs/dir";
    default: return "my results/run 1";
  }
}
static Y docOf(const Conf &f, Ctx &c)
{
  auto l3 = [&](const double *v) {
    Y l = Y::list();
    for (int i = 0; i < 3; ++i) l.l.push_back(Y::num(lit(v[i])));
    return l;
  };
  static const char *const nm[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
  Y doc = Y::map(), box = Y::map(), cells = Y::list();
  for (int i = 0; i < 6; ++i) box.add(nm[i], Y::num(lit(i % 2 ? f.hi[i / 2] : f.lo[i / 2])));
  for (int i = 0; i < 3; ++i) cells.l.push_back(Y::num(PBT_STR(f.n[i])));
  doc.add("general", Y::map().add("output_directory", Y::text(f.outdir)));
  doc.add("grid", Y::map().add("box", box).add("cells", cells));
  Y t = Y::map();
  t.add("start", Y::num(lit(f.start))).add("end", Y::num(lit(f.end))).add("dt", Y::num(lit(f.dt))).add("constant_dt", Y::text(f.dyn ? "NO" : "YES"));
  doc.add("time", t);
  double vec[3] = {1, 0, 0};
  Y v = Y::map();
  v.add("name", Y::text("CIRCULAR")).add("vector", l3(vec)).add("center", l3(f.cen)).add("gradient", Y::map().add("scheme", Y::text("ANALYTICAL")));
  doc.add("velocity", v);
  Y l = Y::map();
  l.add("name", Y::text("CIRCLE")).add("center", l3(f.lcen)).add("radius", Y::num(lit(f.radius))).add("gradient", Y::map().add("scheme", Y::text("CENTRAL")));
  doc.add("levelset", l);
  shuffleDoc(c, doc, true);
  return doc;
}
static std::string tail(const std::string &s) { return s.size() > 700 ? s.substr(0, 700) : s; }
static void checkEnd(const Run &r, const std::string &what)
{
  PBT_CHECK(!(WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGXCPU || WTERMSIG(r.status) == SIGKILL)), "the program does not terminate (" << what << ")");
  PBT_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0,
            "the program " << (WIFEXITED(r.status) ? PBT_STR("exits with " << WEXITSTATUS(r.status)) : PBT_STR("dies on signal " << WTERMSIG(r.status))) << " (" << what << "): " << tail(r.err));
}
static void prop(Ctx &c)
{
  static int seq = 0;
  const char *sc = getenv("VERIF_SCRATCH");
  std::string base = PBT_STR((sc ? sc : ".") << "/app-" << getpid()), cwd = PBT_STR(base << "-" << seq++ % 4), io = base + "-io";
  wipe(cwd);
  mkdir(cwd.c_str(), 0755);
  struct Clean {
    std::string d;
    ~Clean() { wipe(d); }
  } cl{cwd};
  int k = c.weighted({14, 1, 1});
  if (k) {
    std::vector<std::string> a;
    if (k == 2) a.push_back(c.coin() ? "nothing-here" : "no/such/dir/inputs");
    c.label(k == 1 ? "missing argument" : "missing input file");
    Run r = runApp(cwd, a, io);
    PBT_NOTE(c, (k == 1 ? "no argument" : "missing file " + a[0]));
    PBT_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) < 77, "bad end without input: " << tail(r.err));
    PBT_CHECK(!(r.out + r.err).empty(), "no message without input");
    std::set<std::string> f;
    files(cwd, "", f);
    PBT_CHECK(f.empty(), "files appeared without input: " << *f.begin());
    return;
  }
  int runs = 1 + (int)c.draw(2);
  std::string shared = genDir(c, cwd);
  bool pre = c.coin(1, 4);
  for (int q = 0; q < runs; ++q) {
    Conf f = gen(c);
    f.outdir = q && c.coin(1, 3) ? genDir(c, cwd) : shared;
    Y doc = docOf(f, c);
    std::string text = render(doc, genStyle(c));
    std::string in = cwd + "/inputs" + (c.coin() ? ".yaml" : "");
    {
      std::ofstream o(in, std::ios::trunc);
      o << text;
    }
    std::string od = f.outdir[0] == '/' ? f.outdir : cwd + "/" + f.outdir;
    if (pre && q == 0 && f.outdir == "out") {
      mkdir(od.c_str(), 0755);
      std::ofstream(od + "/velocity") << std::string(5000, 'x');
      std::ofstream(od + "/keep") << "keep";
      c.label("existing output directory");
    }
    std::set<std::string> before, after;
    files(cwd, "", before);
    std::string info = PBT_STR("run " << q << " cells=" << f.n[0] << "x" << f.n[1] << " box=[" << f.lo[0] << "," << f.hi[0] << "]x[" << f.lo[1] << "," << f.hi[1] << "]x[" << f.lo[2] << "," << f.hi[2] << "] center=("
                                      << f.cen[0] << "," << f.cen[1] << ") dt=" << f.dt << (f.dyn ? " dynamic" : " fixed") << " end=" << f.end << " out=" << f.outdir);
    PBT_NOTE(c, info << "; ");
    Run r = runApp(cwd, {c.coin() ? in : in.substr(cwd.size() + 1)}, io);
    checkEnd(r, info);
    files(cwd, "", after);
    for (auto &x : before) PBT_CHECK(after.count(x), "the program removed " << x);
    std::string odr = od.substr(cwd.size() + 1);
    if (odr.compare(0, 2, "./") == 0) odr = odr.substr(2);
    if (odr.back() == '/') odr.pop_back();
    for (auto &x : after)
      if (!before.count(x)) {
        bool under = x.compare(0, odr.size() + 1, odr + "/") == 0;
        bool parent = x.back() == '/' && odr.compare(0, x.size() - 1, x.substr(0, x.size() - 1)) == 0;
        PBT_CHECK(under || parent, "the program wrote " << x << " outside its output directory " << odr);
      }
    std::ifstream vf(od + "/velocity");
    PBT_CHECK(vf.good(), "no velocity file in " << f.outdir);
    std::string line;
    LD ext = 0;
    for (int a = 0; a < 2; ++a) ext = std::max(ext, std::max(fabsl((LD)f.lo[a]), fabsl((LD)f.hi[a])) + fabsl((LD)f.cen[a]));
    for (int i = 0; i < f.n[0]; ++i)
      for (int j = 0; j < f.n[1]; ++j) {
        PBT_CHECK((bool)std::getline(vf, line), "velocity file ends before cell (" << i << "," << j << "); " << info);
        double v[6];
        char extra;
        int m = sscanf(line.c_str(), "%lf %lf %lf %lf %lf %lf %c", v, v + 1, v + 2, v + 3, v + 4, v + 5, &extra);
        PBT_CHECK(m == 6, "velocity line for cell (" << i << "," << j << ") is not six numbers: '" << line << "'");
        LD x = f.node(0, i), y = f.node(1, j);
        LD want[6] = {x, y, 0, W * (f.cen[1] - y), W * (x - f.cen[0]), 0};
        for (int q2 = 0; q2 < 6; ++q2)
          PBT_CHECK(fabsl(v[q2] - want[q2]) <= 5.2e-6L * fabsl(want[q2]) + 1e-13L * ext,
                    "velocity file, cell (" << i << "," << j << ") column " << q2 << " is " << v[q2] << ", expected " << (double)want[q2] << "; " << info);
      }
    while (std::getline(vf, line)) PBT_CHECK(line.empty(), "extra line in velocity file: '" << line << "'; " << info);
    if (f.dyn) c.label("dynamic step");
    if (f.hi[2] == f.lo[2]) c.label("flat z extent");
    if (f.n[0] != f.n[1] && f.n[0] * f.n[1] > 1) c.nontrivial();
  }
  if (runs > 1) c.label("rerun");
}
PBT_MAIN("C21", "random boxes, cell counts, centres, time settings, output directories and renderings, one or two runs per directory; non-trivial: anisotropic cell counts", prop)
