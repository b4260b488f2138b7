// Independent tensor-product cubic Hermite interpolant in long double (classical h00/h10/h01/h11 basis).
#pragma once
#include "gals_gen.h"

// basis: value or derivative (der) of the function that carries corner bit b and derivative order a
inline LD hbasis(int b, int a, int der, LD t)
{
  if (b == 0 && a == 0) return der ? 6 * t * t - 6 * t : 2 * t * t * t - 3 * t * t + 1;
  if (b == 0 && a == 1) return der ? 3 * t * t - 4 * t + 1 : t * t * t - 2 * t * t + t;
  if (b == 1 && a == 0) return der ? -6 * t * t + 6 * t : -2 * t * t * t + 3 * t * t;
  return der ? 3 * t * t - 2 * t : t * t * t - t * t;
}
// nodal data source: F(node, mask) = derivative of the field with respect to the axes in mask
template <class F>
void hermiteCell(int D, const F &data, const long *base, const LD *eta, const LD *dx, LD &val, LD *grad, LD &scale)
{
  val = 0, scale = 0;
  for (int a = 0; a < D; ++a) grad[a] = 0;
  for (int corner = 0; corner < (1 << D); ++corner)
    for (int mask = 0; mask < (1 << D); ++mask) {
      int id[3] = {0, 0, 0};
      for (int a = 0; a < D; ++a) id[a] = (int)(base[a] + ((corner >> a) & 1));
      LD f = data(id[0], id[1], id[2], mask);
      for (int a = 0; a < D; ++a)
        if ((mask >> a) & 1) f *= dx[a];
      scale += fabsl(f);
      LD v = f;
      for (int a = 0; a < D; ++a) v *= hbasis((corner >> a) & 1, (mask >> a) & 1, 0, eta[a]);
      val += v;
      for (int g = 0; g < D; ++g) {
        LD w = f / dx[g];
        for (int a = 0; a < D; ++a) w *= hbasis((corner >> a) & 1, (mask >> a) & 1, a == g, eta[a]);
        grad[g] += w;
      }
    }
}
// bit mask -> slot of the library's mixed-derivative vector: 2D xy; 3D xy, yz, zx, xyz
inline int mixedSlot(int mask) { return mask == 3 ? 0 : mask == 6 ? 1 : mask == 5 ? 2 : 3; }

struct HermiteData {  // arbitrary nodal data: value, gradient and mixed derivatives of every node
  Data d;
  double fac[3] = {1, 1, 1};  // typical factor of a derivative along an axis
  double operator()(int i, int j, int k, int mask) const
  {
    double v = d(key(i, j, k), mask);
    for (int a = 0; a < 3; ++a)
      if ((mask >> a) & 1) v *= fac[a];
    return v;
  }
};
inline HermiteData genHermiteData(Ctx &c, const GridSpec &s)
{
  HermiteData h;
  h.d = genData(c, -2, 2);
  int m = c.weighted({3, 1, 1});
  for (int a = 0; a < s.dim; ++a) h.fac[a] = m == 0 ? 1 / (double)s.dx(a) : m == 1 ? 1.0 : c.magnitude(-2, 2) / (double)s.dx(a);
  return h;
}
template <int D, class F>
void setPrev(gc::Levelset<G<D>, double> &ls, const GridSpec &s, const F &f)
{
  s.padded([&](int i, int j, int k) {
    ls.phiPrev()(i, j, k) = f(i, j, k, 0);
    V3 g(0, 0, 0);
    for (int a = 0; a < D; ++a) g[a] = f(i, j, k, 1 << a);
    ls.psiPrev()(i, j, k) = g;
    for (int mask = 1; mask < (1 << D); ++mask)
      if (mask & (mask - 1)) ls.phiMixedDerivativesPrev()(i, j, k)[mixedSlot(mask)] = f(i, j, k, mask);
  });
}
// everything but the previous-step fields
template <int D>
void setRest(gc::Levelset<G<D>, double> &ls, const GridSpec &s, const Data &d)
{
  fill(ls.phi(), s, d, 100);
  fill(ls.psi(), s, d, 110);
  fill(ls.phiMixedDerivatives(), s, d, 120);
  fill(ls.phiInterpPrev(), s, d, 130);
  fill(ls.psiInterpPrev(), s, d, 140);
}
template <int D>
std::vector<double> prevSnapshot(const gc::Levelset<G<D>, double> &ls)
{
  std::vector<double> r = snapshot(ls.phiPrev()), b = snapshot(ls.psiPrev()), m = snapshot(ls.phiMixedDerivativesPrev());
  r.insert(r.end(), b.begin(), b.end());
  r.insert(r.end(), m.begin(), m.end());
  return r;
}
template <int D>
std::vector<double> currentSnapshot(const gc::Levelset<G<D>, double> &ls)
{
  std::vector<double> r = snapshot(ls.phi()), b = snapshot(ls.psi()), m = snapshot(ls.phiMixedDerivatives());
  r.insert(r.end(), b.begin(), b.end());
  r.insert(r.end(), m.begin(), m.end());
  return r;
}
// A point of the padded hull given by cell and local coordinate; kept strictly inside the hull.
template <int D>
V3 pointIn(const GridSpec &s, const long *cell, const LD *u)
{
  V3 x(0, 0, 0);
  for (int a = 0; a < D; ++a) {
    LD m = 16 * s.etaTol(a) + 1e-10L, t = u[a];
    if (cell[a] == -s.pad && t < m) t = m;
    if (cell[a] == s.n[a] + s.pad - 2 && t > 1 - m) t = 1 - m;
    x[a] = (double)(s.node(a, cell[a]) + t * s.dx(a));
  }
  return x;
}
template <int D>
V3 genPoint(Ctx &c, const GridSpec &s, bool *ghost = nullptr, bool *tie = nullptr)
{
  long cell[3];
  LD u[3];
  for (int a = 0; a < D; ++a) {
    cell[a] = c.integer(-s.pad, s.n[a] + s.pad - 2);
    switch (c.draw(7)) {
      case 0: u[a] = 0.5L; break;
      case 1: u[a] = 0; break;
      case 2: u[a] = (LD)c.draw(9) / 8; break;
      case 3: {  // close to a node, at any scale
        LD e = powl(10.0L, -1 - 8 * (LD)c.unit());
        u[a] = c.coin() ? e : 1 - e;
        break;
      }
      default: u[a] = c.unit(); break;
    }
    if (ghost && (cell[a] < 0 || cell[a] >= s.n[a] - 1)) *ghost = true;
    if (tie && (u[a] == 0 || u[a] == 1)) *tie = true;
  }
  return pointIn<D>(s, cell, u);
}
// Reference value/gradient at x plus tolerances that account for the rounding of the local coordinate.
struct RefEval {
  LD val, grad[3], tolV, tolG[3], scale;
};
template <int D, class F>
RefEval refEval(const GridSpec &s, const F &data, const V3 &x)
{
  RefEval r;
  long b[3] = {0, 0, 0};
  LD eta[3], dx[3], de = 0;
  int alt[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) {
    dx[a] = s.dx(a);
    LD p = ((LD)x[a] - s.node(a, 0)) / dx[a];
    b[a] = (long)floorl(p);
    b[a] = std::max<long>(-s.pad, std::min<long>(b[a], s.n[a] + s.pad - 2));
    eta[a] = p - b[a];
    LD t = 4 * s.etaTol(a);
    de += t;
    if (eta[a] < t && b[a] > -s.pad) alt[a] = -1;
    if (eta[a] > 1 - t && b[a] < s.n[a] + s.pad - 2) alt[a] = 1;
  }
  hermiteCell(D, data, b, eta, dx, r.val, r.grad, r.scale);
  // next to a node the neighbouring cell may legitimately be used: its data then bound the rounding error too
  for (int m = 1; m < (1 << D); ++m) {
    bool ok = true;
    long bb[3] = {b[0], b[1], b[2]};
    LD e2[3] = {eta[0], eta[1], eta[2]};
    for (int a = 0; a < D; ++a)
      if ((m >> a) & 1) {
        if (!alt[a]) ok = false;
        bb[a] += alt[a], e2[a] -= alt[a];
      }
    if (!ok) continue;
    LD v, g[3], sc;
    hermiteCell(D, data, bb, e2, dx, v, g, sc);
    r.scale = std::max(r.scale, sc);
  }
  r.tolV = r.scale * (400 * EPS + 4 * de) + 1e-290L;
  for (int a = 0; a < D; ++a) r.tolG[a] = r.scale / dx[a] * (2000 * EPS + 24 * de) + 1e-290L;
  return r;
}
template <int D>
using Herm = GALS::INTERPOLATION::Hermite<double, G<D>>;
// Grid with at least two padded nodes along each axis, so that a cell exists.
inline GridSpec genHermGrid(Ctx &c, int dim, int maxPad = 3, int cap1 = 30, int cap2 = 8, int cap3 = 4)
{
  GridSpec s = genGrid(c, dim, 0, maxPad, cap1, cap2, cap3);
  if (s.pad == 0)
    for (int a = 0; a < dim; ++a) s.n[a] = std::max(2, s.n[a]);
  return s;
}
