// Running a reference program in a scratch directory and comparing its output files.
#pragma once
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <functional>
#include <map>
#include <sstream>

#include "pbt.h"
using pbt::Ctx;
using pbt::LD;
static const char *const FILES[] = {"phi.txt", "psix.txt", "psiy.txt", "psixy.txt", "Velocity_x.txt", "Velocity_y.txt", "details.txt"};
static std::string slurp(const std::string &fn, bool *there = nullptr)
{
  std::ifstream f(fn, std::ios::binary);
  if (there) *there = f.good();
  std::stringstream o;
  o << f.rdbuf();
  return o.str();
}
static void cleanDir(const std::string &d)
{
  for (auto f : FILES) unlink((d + "/" + f).c_str());
}
typedef std::vector<std::pair<std::string, std::string>> Env;
struct Proc {
  pid_t pid;
  int status = -1;
  bool hung = false;
  std::string err;
};
static void start(Proc &p, const char *exe, const std::string &dir, const std::string &arg, const Env &env, const std::string &log)
{
  fflush(nullptr);
  p.pid = fork();
  if (p.pid) return;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (chdir(dir.c_str())) _exit(120);
  signal(SIGALRM, SIG_DFL);
  int n = open("/dev/null", O_RDWR), e = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(n, 0), dup2(n, 1), dup2(e, 2);
  for (auto &v : env) setenv(v.first.c_str(), v.second.c_str(), 1);
  alarm(getenv("GS_SHIPPED_ONLY") ? 300 : 60);
  if (arg.empty())
    execl(exe, exe, (char *)nullptr);
  else
    execl(exe, exe, arg.c_str(), (char *)nullptr);
  _exit(121);
}
static void finish(Proc &p, const std::string &log)
{
  while (waitpid(p.pid, &p.status, 0) < 0 && errno == EINTR) {
  }
  p.hung = WIFSIGNALED(p.status) && WTERMSIG(p.status) == SIGALRM;
  p.err = slurp(log);
  unlink(log.c_str());
}
static void bad(const Proc &p, const std::string &who)
{
  PBT_CHECK(!p.hung, who << " did not end within 60 s");
  if (WIFEXITED(p.status) && WEXITSTATUS(p.status) == 0) return;
  PBT_FAIL(who << (WIFEXITED(p.status) ? PBT_STR(" exits with " << WEXITSTATUS(p.status) << (WEXITSTATUS(p.status) == 66 ? " (data race)" : "")) : PBT_STR(" dies on signal " << WTERMSIG(p.status))) << ": "
               << p.err.substr(0, 900));
}
struct Out {
  std::map<std::string, std::vector<std::vector<double>>> rows;
  std::map<std::string, std::string> text;
};
static Out collect(const std::string &dir, const std::string &who)
{
  Out o;
  for (auto f : FILES) {
    bool there;
    std::string t = slurp(dir + "/" + f, &there);
    PBT_CHECK(there, who << " wrote no " << f);
    o.text[f] = t;
    std::vector<std::vector<double>> r;
    std::stringstream ss(t);
    std::string line, cell;
    while (std::getline(ss, line)) {
      if (line.empty()) continue;
      r.emplace_back();
      std::stringstream ls(line);
      while (std::getline(ls, cell, ',')) {
        char *e;
        r.back().push_back(strtod(cell.c_str(), &e));
        PBT_CHECK(e != cell.c_str() && *e == 0, who << ": " << f << " holds '" << cell << "'");
      }
    }
    o.rows[f] = r;
  }
  return o;
}
// Where the two runs differ, `wobble` says how far the serial program's own value moves when the domain moves by some units of rounding: a node
// traced onto a cell edge or onto the boundary may legitimately fall on either side.
static void compare(const Out &a, const Out &b, const std::string &who, int ny, const std::function<std::vector<Out>()> &wobble, LD rel = 1e-9L)
{
  std::vector<Out> near;
  bool asked = false;
  for (auto f : FILES) {
    auto &x = a.rows.at(f), &y = b.rows.at(f);
    PBT_CHECK(x.size() == y.size(), who << ": " << f << " has " << y.size() << " lines, serial has " << x.size());
    LD sc = 1;
    for (auto &r : x)
      for (double v : r) sc = std::max(sc, fabsl((LD)v));
    for (size_t i = 0; i < x.size(); ++i) {
      PBT_CHECK(x[i].size() == y[i].size(), who << ": " << f << " line " << i << " has " << y[i].size() << " values, serial has " << x[i].size());
      for (size_t j = 0; j < x[i].size(); ++j) {
        LD tol = rel * sc + 2e-10L;
        if (!(fabsl((LD)x[i][j] - y[i][j]) <= tol)) {
          if (!asked) near = wobble(), asked = true;
          for (auto &o : near) {
            auto &z = o.rows.at(f);
            if (i < z.size() && j < z[i].size()) tol += 20 * fabsl((LD)z[i][j] - x[i][j]);
          }
        }
        PBT_CHECK(fabsl((LD)x[i][j] - y[i][j]) <= tol, who << ": " << f << " block " << i / ny << " node (" << j << "," << i % ny << ") is " << y[i][j] << ", serial has " << x[i][j]);
      }
    }
  }
}
static std::string num(double v)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
// Leave some settings at the values the programs ship with; returns true if the grid is one of them.
static bool shippedOnly() { return getenv("GS_SHIPPED_ONLY") != nullptr; }
static void shipped(Ctx &c, Env &env, bool &grid, std::string &info)
{
  if (shippedOnly()) {  // whole runs: only a few
    if (!c.coin(1, 100)) throw pbt::Discard{};
    Env r;
    for (auto &v : env)
      if (v.first.compare(0, 3, "GS_") || v.first == "GS_ORDER") r.push_back(v);
    env = r, grid = true, info += " all settings as shipped";
    return;
  }
  grid = c.coin(1, 12);
  bool keepT = grid || c.coin(), box = c.coin(2, 3);
  Env r;
  for (auto &v : env) {
    bool n = v.first == "GS_nx" || v.first == "GS_ny", drop = n ? grid : v.first.find("lim") != std::string::npos ? box : v.first == "GS_Tfinal" ? !keepT : v.first.compare(0, 3, "GS_") == 0 && v.first != "GS_ORDER" && c.coin(2, 3);
    if (v.first == "GS_dt" && grid) drop = true;
    if (drop)
      info += " shipped:" + v.first.substr(3);
    else if (v.first == "GS_Tfinal")
      r.push_back({v.first, num(grid ? 0.009 : 0.1 * c.real(0, 1))});
    else if (v.first == "GS_dt")
      r.push_back({v.first, num(keepT ? 0.02 : 0.03)});
    else
      r.push_back(v);
  }
  env = r;
}
struct Dir {
  std::string d;
  Dir(const std::string &p) : d(p)
  {
    mkdir(d.c_str(), 0755);
    cleanDir(d);
  }
  ~Dir() { cleanDir(d), rmdir(d.c_str()); }
};
static void stale(const std::string &d)
{  // files left by an earlier run must not survive
  for (auto f : FILES) std::ofstream(d + "/" + f) << "1,2,3\n";
}
static std::vector<Out> wobbled(const char *exe, const std::string &base, const Env &env, const Out &ref)
{
  std::vector<Out> r;
  auto q = ref.rows.at("details.txt");
  if (shippedOnly() || q.size() != 1 || q[0].size() != 11) return r;
  static const char *const key[] = {"GS_xlim1", "GS_xlim2", "GS_ylim1", "GS_ylim2"};
  double lim[4];
  Env rest;
  for (int k = 0; k < 4; ++k) lim[k] = q[0][4 + k];
  for (auto &v : env) {
    int k = 0;
    while (k < 4 && v.first != key[k]) ++k;
    if (k < 4)
      lim[k] = atof(v.second.c_str());
    else
      rest.push_back(v);
  }
  double e[2] = {2.2e-16 * (fabs(lim[0]) + fabs(lim[1])), 2.2e-16 * (fabs(lim[2]) + fabs(lim[3]))};
  uint64_t noise = 1;
  for (int t = 0; t < 32; ++t) {
    Env v = rest;
    for (int k = 0; k < 4; ++k) {
      noise = noise * 6364136223846793005ull + 1442695040888963407ull;
      v.push_back({key[k], num(lim[k] + ((noise >> 11) * 0x1p-53 - 0.5) * (t % 2 ? 8 : 200) * e[k / 2])});
    }
    Dir d(base + "-near");
    Proc p;
    start(p, exe, d.d, "", v, base + ".near");
    finish(p, base + ".near");
    if (!p.hung && WIFEXITED(p.status) && WEXITSTATUS(p.status) == 0) r.push_back(collect(d.d, "serial program, domain moved by rounding"));
  }
  return r;
}
static void checkShape(Out &ref, int nx, int ny, int blocks, const std::string &info)
{
  for (auto f : FILES) {
    if (!strcmp(f, "details.txt")) continue;
    PBT_CHECK((int)ref.rows[f].size() == blocks * ny, "serial program: " << f << " has " << ref.rows[f].size() << " lines for " << blocks << " printed steps of " << ny << " rows (" << info << ")");
    for (auto &r : ref.rows[f]) {
      PBT_CHECK((int)r.size() == nx, "serial program: " << f << " row of " << r.size() << " values (" << info << ")");
      for (double v : r) {
        PBT_CHECK(v == v, "serial program: not a number in " << f << " (" << info << ")");
        if (fabs(v) > 1e7) throw pbt::Discard{};
      }
    }
  }
}
