// Generators and helpers shared by the library harnesses.
#pragma once
#include <limits>
#include <limits.h>

#include <memory>

#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/utilities/array.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/utilities.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"
#include "pbt.h"

using pbt::Ctx;
using pbt::LD;
namespace gc = GALS::CPU;
template <int D>
using G = gc::Grid<double, D>;
typedef gc::Vec3<double> V3;
typedef gc::Vec3<int> I3;
typedef gc::Mat3<double> M3;

static const LD EPS = 2.220446049250313e-16L;

struct GridSpec {
  int dim = 1, pad = 1;
  int n[3] = {1, 1, 1};
  double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};

  LD dx(int a) const { return ((LD)hi[a] - (LD)lo[a]) / n[a]; }
  LD node(int a, long i) const { return (LD)lo[a] + ((LD)i + 0.5L) * dx(a); }
  int p(int a) const { return a < dim ? pad : 0; }
  // largest coordinate magnitude reached by the padded nodes of an axis
  LD maxAbs(int a) const
  {
    LD m = std::max(fabsl(node(a, -p(a))), fabsl(node(a, n[a] - 1 + p(a))));
    return std::max(m, std::max(fabsl((LD)lo[a]), fabsl((LD)hi[a])));
  }
  // absolute rounding uncertainty of a computed node coordinate
  LD posTol(int a) const { return 16 * EPS * (maxAbs(a) + dx(a) * (n[a] + 2 * pad)); }
  // the same relative to the cell size (uncertainty of a local coordinate eta)
  LD etaTol(int a) const { return posTol(a) / dx(a) + 16 * EPS * (n[a] + 2 * pad + 1); }
  long slots() const
  {
    long s = 1;
    for (int a = 0; a < 3; ++a) s *= n[a] + 2 * p(a);
    return s;
  }
  template <class F>
  void interior(F f) const
  {
    for (int i = 0; i < n[0]; ++i)
      for (int j = 0; j < n[1]; ++j)
        for (int k = 0; k < n[2]; ++k) f(i, j, k);
  }
  template <class F>
  void padded(F f) const
  {
    for (int i = -p(0); i < n[0] + p(0); ++i)
      for (int j = -p(1); j < n[1] + p(1); ++j)
        for (int k = -p(2); k < n[2] + p(2); ++k) f(i, j, k);
  }
  bool isInterior(int i, int j, int k) const { return i >= 0 && i < n[0] && j >= 0 && j < n[1] && k >= 0 && k < n[2]; }
  bool inPadded(int i, int j, int k) const
  {
    return i >= -p(0) && i < n[0] + p(0) && j >= -p(1) && j < n[1] + p(1) && k >= -p(2) && k < n[2] + p(2);
  }
  std::string str() const
  {
    return PBT_STR(dim << "D cells=" << n[0] << "x" << n[1] << "x" << n[2] << " pad=" << pad << " box=[" << lo[0] << "," << hi[0] << "]x["
                       << lo[1] << "," << hi[1] << "]x[" << lo[2] << "," << hi[2] << "]");
  }
};

// Cell count along one axis: 1 upwards, sometimes long.
inline int genCount(Ctx &c, int cap)
{
  int k = c.weighted({8, 3, 1});
  int m = k == 0 ? 6 : k == 1 ? 12 : cap;
  return c.integer(1, std::max(1, std::min(m, cap)));
}
inline void genBox(Ctx &c, GridSpec &g)
{
  int kind = c.weighted({3, 3, 2, 2});
  double sc = 1;
  if (kind == 2) sc = c.coin(1, 6) ? c.magnitude(-9, 9) : c.magnitude(-3, 3);
  for (int a = 0; a < 3; ++a) {
    if (kind == 0) {
      g.lo[a] = -(double)c.integer(0, 2);
      g.hi[a] = g.lo[a] + c.integer(1, 4);
    } else if (kind == 3) {  // far from the origin
      g.lo[a] = (c.coin() ? -1 : 1) * c.real(10, 100);
      g.hi[a] = g.lo[a] + c.real(0.25, 8);
    } else {
      g.lo[a] = sc * c.signedReal(3);
      g.hi[a] = g.lo[a] + sc * c.real(0.25, 4);
    }
  }
}
// minPad <= pad <= maxPad
// a value to be stored: ordinary, tiny (other values differ from it by less than any comparison tolerance), huge or infinite
inline double genStored(Ctx &c)
{
  switch (c.weighted({12, 2, 1, 1})) {
    case 1: return (c.coin() ? -1 : 1) * c.magnitude(-14, -10);
    case 2: return (c.coin() ? -1 : 1) * c.magnitude(-310, 300);
    case 3: return c.coin(1, 3) ? (c.coin() ? -1 : 1) * std::numeric_limits<double>::infinity() : 1 + c.integer(1, 9) * 1e-12;
    default: return c.signedReal(100) + 0.0;  // never -0: which zero is stored is not observable through comparisons
  }
}
inline GridSpec genGrid(Ctx &c, int dim, int minPad, int maxPad, int cap1 = 64, int cap2 = 24, int cap3 = 9)
{
  GridSpec g;
  g.dim = dim;
  int cap = dim == 1 ? cap1 : dim == 2 ? cap2 : cap3;
  for (int a = 0; a < dim; ++a) g.n[a] = genCount(c, cap);
  // now and then one long axis, or every axis longer than usual, and wider padding
  if (c.coin(1, 80)) {
    if (dim == 1 || c.coin()) {
      for (int a = 0; a < dim; ++a) g.n[a] = std::min(g.n[a], 3);
      g.n[c.draw(dim)] = c.integer(std::min(cap, 40), dim == 1 ? 400 : dim == 2 ? 200 : 100);
    } else
      for (int a = 0; a < dim; ++a) g.n[a] = c.integer(1, dim == 2 ? 40 : 12);
    if (c.coin(1, 16)) {  // and very rarely much larger ones
      if (dim == 1)
        g.n[0] = c.integer(400, 5000);
      else
        for (int a = 0; a < dim; ++a) g.n[a] = c.integer(dim == 2 ? 40 : 12, dim == 2 ? 120 : 24);
    }
  }
  if (int v = c.suggested(dim == 1 ? 5000 : dim == 2 ? 2000 : 600)) {  // sizes suggested by the source under test
    bool all = dim > 1 && c.coin(1, 3) && v <= (dim == 2 ? 120 : 24);
    for (int a = 0; a < dim; ++a) g.n[a] = all ? v : std::min(g.n[a], 3);
    g.n[c.draw(dim)] = dim > 1 && v > (dim == 2 ? 300 : 100) && c.coin(3, 4) ? 2 : v;
  }
  g.pad = minPad + (int)c.draw(maxPad - minPad + 1);
  if (maxPad >= 3 && c.coin(1, 400)) g.pad = c.integer(maxPad + 1, dim == 3 ? 10 : 40);
  genBox(c, g);
  if (dim < 3 && c.coin(1, 8))  // no extent along axes the grid lacks
    for (int a = dim; a < 3; ++a) g.hi[a] = g.lo[a];
  return g;
}
template <int D>
std::unique_ptr<G<D>> makeGrid(const GridSpec &s)
{
  std::unique_ptr<G<D>> g(new G<D>(s.n[0], s.n[1], s.n[2]));
  g->setPadding(s.pad);
  g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
  return g;
}

// Nodal data: an arbitrary function of (node, component), expanded from a few choices.
struct Data {
  int kind = 0;
  uint64_t seed = 0;
  double scale = 1, offset = 0;
  int hot = 0;
  double operator()(long node, int comp) const
  {
    uint64_t s = pbt::hash64(seed ^ (uint64_t)comp * 0xD1B54A32D192ED03ull, (uint64_t)node);
    uint64_t r = pbt::splitmix(s);
    double u = (double)(r >> 11) * 0x1p-53;
    switch (kind) {
      case 0: return offset + scale * (double)((int)(r % 7) - 3);                     // small integers: ties, zeros, signs
      case 1: return offset + scale * (2 * u - 1);                                    // uniform
      case 2: return (r >> 20) % 5 == 0 ? scale * (2 * u - 1) : 0.0;                  // sparse
      case 3: return scale * pow(10.0, 8 * u - 4) * ((r & 1) ? 1 : -1);               // mixed magnitudes
      case 4: return (long)(node % 97) == hot % 97 && comp == (hot / 97) % 8 ? scale : 0.0;  // almost everything zero
      default: return offset + scale;                                                 // constant
    }
  }
};
inline Data genData(Ctx &c, double magLo = -2, double magHi = 2)
{
  Data d;
  d.kind = c.weighted({3, 6, 2, 2, 1, 1});
  d.seed = c.bits();
  d.scale = c.magnitude(magLo, magHi);
  d.offset = c.coin(1, 4) ? d.scale * c.signedReal(5) : 0;
  d.hot = (int)c.draw(97 * 8);
  return d;
}
inline long key(int i, int j, int k) { return ((long)(i + 512) * 1024 + (j + 512)) * 1024 + (k + 512); }

template <int D>
struct Mixed {
  static const int N = D == 1 ? 0 : D == 2 ? 1 : 4;
};

inline bool bitEq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
inline uint64_t bitsOf(double a)
{
  uint64_t u;
  memcpy(&u, &a, sizeof u);
  return u;
}

// Components of an element type, uniformly.
inline int ncomp(const double &) { return 1; }
inline int ncomp(const V3 &) { return 3; }
inline int ncomp(const M3 &) { return 9; }
template <int N>
int ncomp(const gc::VecN<double, N> &)
{
  return N;
}
inline double getc(const double &v, int) { return v; }
inline double getc(const V3 &v, int c) { return v[c]; }
inline double getc(const M3 &v, int c) { return v[c]; }
template <int N>
double getc(const gc::VecN<double, N> &v, int c)
{
  return v[c];
}
inline void setc(double &v, int, double x) { v = x; }
inline void setc(V3 &v, int c, double x) { v[c] = x; }
inline void setc(M3 &v, int c, double x) { v[c] = x; }
template <int N>
void setc(gc::VecN<double, N> &v, int c, double x)
{
  v[c] = x;
}

// Snapshot of every slot of a field (ghosts included), addressed by node.
template <class A>
std::vector<double> snapshot(const A &arr)
{
  std::vector<double> r;
  for (size_t i = 0; i < arr.size(); ++i) {
    const auto &e = arr[i];
    for (int q = 0; q < ncomp(e); ++q) r.push_back(getc(e, q));
  }
  return r;
}
inline bool sameBits(const std::vector<double> &a, const std::vector<double> &b)
{
  return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
template <class A>
void fill(A &arr, const GridSpec &s, const Data &d, int compBase = 0)
{
  s.padded([&](int i, int j, int k) {
    auto &e = arr(i, j, k);
    int m = ncomp(e);
    for (int q = 0; q < m; ++q) setc(e, q, d(key(i, j, k), compBase + q));
  });
}
// A name close to, but (almost always) different from, the given one.
inline std::string nearMiss(Ctx &c, const std::string &w)
{
  std::string r = w;
  size_t at = (size_t)c.draw(w.size());
  switch (c.draw(7)) {
    case 0: return w.substr(0, at);
    case 1: return w.substr(at + 1);
    case 2: return w + (char)('A' + c.draw(26));
    case 3: return (c.coin() ? " " : "X") + w;
    case 4: r[at] = (char)(r[at] ^ 0x20); return r;
    case 5: r[at] = (char)('A' + c.draw(26)); return r;
    default: r.erase(at, 1); return r;
  }
}
// Snapshot of the ghost slots only.
template <class A>
std::vector<double> ghostSnapshot(const A &arr, const GridSpec &s)
{
  std::vector<double> r;
  s.padded([&](int i, int j, int k) {
    if (s.isInterior(i, j, k)) return;
    const auto &e = arr(i, j, k);
    for (int q = 0; q < ncomp(e); ++q) r.push_back(getc(e, q));
  });
  return r;
}
