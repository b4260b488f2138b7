// One side of the C22 differential: the same calls compiled against one build of the library.
#include <unistd.h>

#include <fstream>

#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/input-parser.h"
#include "gals/utilities/file-utils.h"
#include "hermite_ref.h"
struct Rng {
  uint64_t s;
  uint64_t next() { return pbt::splitmix(s); }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  double u() { return (double)(next() >> 11) * 0x1p-53; }
  double sr(double m) { return m * (2 * u() - 1); }
};
typedef std::vector<double> Tr;
static GridSpec spec(Rng &r, int D, int size, int minPad)
{
  GridSpec s;
  s.dim = D;
  for (int a = 0; a < D; ++a) s.n[a] = r.in(1, 1 + size);
  if (r.in(0, 99) == 0) s.n[r.in(0, D - 1)] = r.in(20, D == 1 ? 300 : D == 2 ? 90 : 40);
  s.pad = r.in(minPad, minPad + 1);
  for (int a = 0; a < 3; ++a) {
    s.lo[a] = r.in(0, 2) ? r.sr(2) : -1;
    s.hi[a] = s.lo[a] + (r.in(0, 2) ? 0.25 + 2 * r.u() : 2);
  }
  return s;
}
static Data data(Rng &r)
{
  Data d;
  d.kind = r.in(0, 3);
  d.seed = r.next();
  d.scale = pow(10, r.in(-2, 2));
  return d;
}
static void add(Tr &t, const Tr &x) { t.insert(t.end(), x.begin(), x.end()); }
template <int D>
static void gridOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, D, size, 0);
  auto g = makeGrid<D>(s);
  s.padded([&](int i, int j, int k) {
    V3 x = (*g)(i, j, k);
    t.push_back(g->index(i, j, k));
    for (int a = 0; a < 3; ++a) t.push_back(x[a]);
  });
  t.push_back(g->size()), t.push_back(g->totalCells()), t.push_back(g->getPadding()), t.push_back(g->dimension());
  for (int a = 0; a < 3; ++a) t.push_back(g->dX()[a]), t.push_back(g->numCells()[a]), t.push_back(g->getMask()[a]);
  for (int q = 0; q < 4; ++q) {
    V3 x(0, 0, 0);
    for (int a = 0; a < D; ++a) x[a] = (double)(s.node(a, 0) + r.u() * (s.n[a]) * s.dx(a));
    auto id = g->baseNodeId(x);
    for (int a = 0; a < D; ++a) t.push_back(id[a]);
  }
}
template <int D>
static void gradOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, D, size, 2);
  auto g = makeGrid<D>(s);
  gc::Array<G<D>, double> f(*g);
  gc::Array<G<D>, V3> v(*g), o(*g);
  gc::Array<G<D>, M3> m(*g);
  fill(f, s, data(r)), fill(v, s, data(r));
  gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(f, o);
  add(t, snapshot(o));
  gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(f, o);
  add(t, snapshot(o));
  gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(v, m);
  add(t, snapshot(m));
  gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(v, m);
  add(t, snapshot(m));
}
template <int D>
static void interpOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, D, size, 1);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  HermiteData h;
  h.d = data(r);
  setPrev<D>(ls, s, h);
  gc::Array<G<D>, V3> x(*g);
  s.interior([&](int i, int j, int k) {
    V3 p(0, 0, 0);
    for (int a = 0; a < D; ++a) p[a] = (double)(s.node(a, 0) + (r.u() * (s.n[a] + 1) - 1 + 1e-6) * 0.999L * s.dx(a));
    x(i, j, k) = p;
  });
  gc::Interpolate<double, G<D>, Herm<D>>::compute(x, ls);
  add(t, snapshot(ls.phiInterpPrev()));
  add(t, snapshot(ls.psiInterpPrev()));
  for (int w = 0; w < 3; ++w) {
    auto q = Herm<D>().interpolate(*g, x(r.in(0, s.n[0] - 1), r.in(0, s.n[1] - 1), r.in(0, s.n[2] - 1)), ls, w > 0);
    t.push_back(q.phi_interpolated);
    for (int a = 0; a < 3; ++a) t.push_back(q.psi_interpolated[a]);
  }
}
static void linearOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, 1, size + 3, 1);
  auto g = makeGrid<1>(s);
  gc::Array<G<1>, double> f(*g), o(*g);
  gc::Array<G<1>, V3> x(*g);
  fill(f, s, data(r));
  s.interior([&](int i, int j, int k) { x(i, j, k) = V3((double)(s.node(0, 0) + (r.u() * (s.n[0] + 1) - 1 + 1e-6) * 0.999L * s.dx(0)), 0, 0); });
  gc::Interpolate<double, G<1>, GALS::INTERPOLATION::Linear<double, G<1>>>::compute(x, f, o);
  add(t, snapshot(o));
}
template <int D>
static void stepOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, D, size, 1);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  gc::LevelsetVelocity<G<D>, double> v(*g);
  HermiteData h;
  h.d = data(r);
  setPrev<D>(ls, s, h);
  fill(v.velocityGradient(), s, data(r));
  s.padded([&](int i, int j, int k) {
    V3 u(0, 0, 0);
    for (int a = 0; a < D; ++a) u[a] = r.sr(0.9) * (double)s.dx(a);
    v.velocity()(i, j, k) = u;
  });
  gc::Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>>>::compute(r.in(0, 2) ? 1.0 : r.sr(1), v, ls);
  add(t, snapshot(ls.phi()));
  add(t, snapshot(ls.psi()));
  gc::Temporal<double, G<D>>::compute(r.sr(0.5), v, ls);
  add(t, snapshot(ls.phi()));
}
template <int D>
static void positions(const GridSpec &s, const G<D> &g, gc::Array<G<D>, V3> &p)
{
  s.padded([&](int i, int j, int k) { p(i, j, k) = g(i, j, k); });
}
template <int D>
static void circleOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, D, size, 0);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  gc::Array<G<D>, V3> p(*g);
  positions<D>(s, *g, p);
  GALS::INPUT_FIELDS::Levelset in;
  in.name = r.in(0, 4) ? "CIRCLE" : "OTHER";
  in.center = V3(std::vector<double>{r.sr(1), r.sr(1), r.sr(1)});
  in.radius = r.sr(1);
  GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(*g, in).compute(p, ls);
  add(t, snapshot(ls.phi()));
}
template <int D>
static void rotOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, D, size, 0);
  auto g = makeGrid<D>(s);
  gc::LevelsetVelocity<G<D>, double> v(*g);
  gc::Array<G<D>, V3> p(*g);
  positions<D>(s, *g, p);
  GALS::INPUT_FIELDS::Velocity in;
  in.name = r.in(0, 4) ? "CIRCULAR" : "OTHER";
  in.gradient_scheme = r.in(0, 2) ? "ANALYTICAL" : "NONE";
  in.center = {r.sr(1), r.sr(1), r.sr(1)};
  GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(*g, in).compute(p, r.sr(3), v);
  add(t, snapshot(v.velocity()));
  add(t, snapshot(v.velocityGradient()));
}
static void vecOp(Rng &r, int, Tr &t)
{
  std::vector<double> a{r.sr(5), r.sr(5), r.sr(5)}, b{r.sr(5), 1 + r.u(), (double)r.in(1, 4)};
  V3 x(a), y(b), z(1, 2, 3);
  gc::Vec3<int> k(std::vector<int>{r.in(-5, 5), r.in(-5, 5), r.in(-5, 5)});
  for (const V3 &v : {x, y, x - y, x * y, x * 2.0, x / z}) {
    for (int q = 0; q < 3; ++q) t.push_back(v[q]);
    t.push_back(v.mag()), t.push_back(v.min());
  }
  for (int q = 0; q < 3; ++q) t.push_back(k[q]);
  t.push_back(x == y), t.push_back(x == x);
  V3 near(x);
  near[r.in(0, 2)] += pow(10, r.in(-14, -6));
  t.push_back(x == near), t.push_back(near == x);
  gc::Vec3<int> k2(k);
  k2[r.in(0, 2)] += r.in(-1, 1);
  t.push_back(k == k2), t.push_back(k.min()), t.push_back(k.mag()), t.push_back((k - k2)[0]), t.push_back((k * k2)[1]), t.push_back((k * 3)[2]);
  M3 m;
  for (int q = 0; q < 9; ++q) m[q] = r.sr(2);
  V3 w = m.dot(x);
  for (int q = 0; q < 3; ++q) t.push_back(w[q]);
}
static void parseOp(Rng &r, int, Tr &t)
{
  const char *sc = getenv("VERIF_SCRATCH");
  std::string fn = PBT_STR((sc ? sc : ".") << "/side-" << getpid() << ".yaml");
  {
    std::ofstream o(fn);
    o << "general:\n  output_directory: out" << r.in(0, 99) << "\ngrid:\n  box: {x_min: " << r.sr(2) << ", x_max: " << r.sr(2) << ", y_min: " << r.sr(2) << ", y_max: 2, z_min: 0, z_max: 1}\n  cells: [" << r.in(1, 30)
      << ", " << r.in(1, 30) << ", 1]\ntime: {start: 0, end: " << r.u() << ", dt: " << r.u() << ", constant_dt: NO}\nvelocity:\n  name: CIRCULAR\n  vector: [1, " << r.sr(1) << ", 0]\n  center: [" << r.sr(1) << ", " << r.sr(1)
      << ", 0]\n  gradient: {scheme: ANALYTICAL}\nlevelset:\n  name: CIRCLE\n  center: [" << r.sr(1) << ", " << r.sr(1) << ", " << r.sr(1) << "]\n  radius: " << r.u() << "\n  gradient: {scheme: CENTRAL}\n";
  }
  GALS::INPUT_FIELDS::InputFields in;
  GALS::INPUT_PARSER::InputParser p;
  p.parse(fn, &in);
  unlink(fn.c_str());
  for (char ch : in.m_general->output_directory) t.push_back(ch);
  t.push_back(in.m_grid->x_min), t.push_back(in.m_grid->x_max), t.push_back(in.m_grid->y_min), t.push_back(in.m_grid->nx), t.push_back(in.m_grid->ny), t.push_back(in.m_grid->nz);
  t.push_back(in.m_time->end), t.push_back(in.m_time->dt);
  for (double x : in.m_velocity->vector) t.push_back(x);
  for (double x : in.m_velocity->center) t.push_back(x);
  for (int a = 0; a < 3; ++a) t.push_back(in.m_levelset->center[a]);
  t.push_back(in.m_levelset->radius);
}
static void outOp(Rng &r, int size, Tr &t)
{
  GridSpec s = spec(r, 2, size, 0);
  auto g = makeGrid<2>(s);
  gc::Array<G<2>, V3> a(*g), b(*g);
  fill(a, s, data(r));
  b = a;
  std::ostringstream o;
  o << b;
  for (char ch : o.str()) t.push_back(ch);
  gc::VecN<double, 4> n;
  for (int q = 0; q < 4; ++q) n[q] = r.sr(1);
  gc::VecN<double, 4> n2 = n;
  for (int q = 0; q < 4; ++q) t.push_back(n2[q]);
}
static void fileOp(Rng &r, int size, Tr &t)
{
  const char *sc = getenv("VERIF_SCRATCH");
  std::string base = PBT_STR((sc ? sc : ".") << "/side-" << getpid() << ".d");
  GridSpec s = spec(r, 2, size, 0);
  auto g = makeGrid<2>(s);
  gc::Array<G<2>, V3> a(*g);
  fill(a, s, data(r));
  GALS::UTILITIES::FileUtils fu;
  fu.setRootDirectory(base);
  t.push_back(fu.getRootDirectory() == base);
  std::string f = base + "/x/out";
  t.push_back(fu.fileExists(f));
  t.push_back(fu.createDirectory(base + "/x")), t.push_back(fu.createDirectory(base + "/x"));
  fu.write(f, a);
  t.push_back(fu.fileExists(f));
  std::ifstream in(f);
  for (char ch; in.get(ch);) t.push_back(ch);
  t.push_back(fu.removeFile(f)), t.push_back(fu.removeFile(f)), t.push_back(fu.fileExists(f));
  t.push_back(fu.removeDirectory(base)), t.push_back(fu.fileExists(base));
}
static void badOp(Rng &r, int, Tr &t)
{  // files that must be rejected: one key misspelled, or one list cut short
  const char *sc = getenv("VERIF_SCRATCH");
  std::string fn = PBT_STR((sc ? sc : ".") << "/side-" << getpid() << "-bad.yaml");
  std::string text =
      "general:\n  output_directory: out\ngrid:\n  box: {x_min: 0, x_max: 1, y_min: 0, y_max: 2, z_min: 0, z_max: 1}\n  cells: [4, 5, 1]\ntime: {start: 0, end: 1, dt: 0.1, constant_dt: NO}\nvelocity:\n"
      "  name: CIRCULAR\n  vector: [1, 2, 0]\n  center: [0, 1, 2]\n  gradient: {scheme: ANALYTICAL}\nlevelset:\n  name: CIRCLE\n  center: [0, 1, 2]\n  radius: 1\n  gradient: {scheme: CENTRAL}\n";
  static const char *const from[] = {"output_directory", "x_min", "z_max", "cells", "start", "dt:", "constant_dt", "vector", "radius", "[4, 5, 1]", "[0, 1, 2]", "scheme: CENTRAL", "box", "end"};
  static const char *const to[] = {"outputdirectory", "xmin", "zmax", "cell", "begin", "dT:", "fixed_dt", "vec", "rad", "[4]", "[0]", "skeme: CENTRAL", "bocks", "stop"};
  int w = r.in(0, 13);
  text.replace(text.find(from[w]), strlen(from[w]), to[w]);
  std::ofstream(fn) << text;
  GALS::INPUT_FIELDS::InputFields in;
  GALS::INPUT_PARSER::InputParser p;
  bool threw = false;
  try {
    p.parse(fn, &in);
  } catch (const std::exception &) {
    threw = true;
  }
  unlink(fn.c_str());
  t.push_back(threw);
}
extern "C" __attribute__((visibility("default"))) void trace_op(int op, int dim, uint64_t seed, int size, std::vector<double> *out)
{
  Rng r{seed};
#define BY_DIM(f)                       \
  dim == 1 ? f<1>(r, size, *out) : dim == 2 ? f<2>(r, size, *out) : f<3>(r, size, *out)
  switch (op) {
    case 0: BY_DIM(gridOp); break;
    case 1: BY_DIM(gradOp); break;
    case 2: BY_DIM(interpOp); break;
    case 3: linearOp(r, size, *out); break;
    case 4: BY_DIM(stepOp); break;
    case 5: BY_DIM(circleOp); break;
    case 6: dim == 2 ? rotOp<2>(r, size, *out) : rotOp<3>(r, size, *out); break;
    case 7: vecOp(r, size, *out); break;
    case 8: parseOp(r, size, *out); break;
    case 9: outOp(r, size, *out); break;
    case 10: fileOp(r, size, *out); break;
    default: badOp(r, size, *out); break;
  }
}
