#include "limiter_ref.h"
// C11: gradient limiting.
#ifdef HAVE_GCP
static void toArr(const GALS::INTERPOLATION::ControlPoints<double> &p, double *o) { o[0] = p.c_30, o[1] = p.c_21, o[2] = p.c_12, o[3] = p.c_03; }
#endif
// end data of an edge in units of the cell: values p0,p1 and slopes*dx D1,D2
static void genEdge(Ctx &c, double &p0, double &p1, double &D1, double &D2)
{
  double sc = c.magnitude(-4, 4);
  switch (c.weighted({4, 4, 1, 1, 1, 2})) {
    case 0:  // small integers: every sign pattern and many near-ties
      p0 = c.integer(-3, 3) * sc, p1 = c.integer(-3, 3) * sc, D1 = c.integer(-9, 9) * sc, D2 = c.integer(-9, 9) * sc;
      break;
    case 1:  // generic
      p0 = c.signedReal(2) * sc, p1 = p0 + c.signedReal(2) * sc, D1 = c.signedReal(6) * sc, D2 = c.signedReal(6) * sc;
      break;
    case 2:  // flat edge, one zero slope (exact tie)
      p0 = p1 = c.signedReal(2) * sc;
      D1 = 0, D2 = c.coin() ? 0 : c.signedReal(6) * sc;
      if (c.coin()) std::swap(D1, D2);
      break;
    case 3:  // linear data
      p0 = c.signedReal(2) * sc, D1 = D2 = c.signedReal(2) * sc, p1 = p0 + D1;
      break;
    case 5: {  // everything exactly representable, including thirds: ties are decisive
      sc = ldexp(1.0, c.integer(-8, 8));
      int k = c.coin() ? 3 : 9;
      p0 = c.integer(-k, k), p1 = c.integer(-k, k), D1 = 3 * c.integer(-3, 3), D2 = 3 * c.integer(-3, 3);
      if (c.coin()) p1 = p0 + (c.coin() ? D1 : D2);
      p0 *= sc, p1 *= sc, D1 *= sc, D2 *= sc;
      break;
    }
    default:  // slopes close to the chord
      p0 = c.signedReal(2) * sc, p1 = p0 + c.signedReal(2) * sc;
      D1 = (p1 - p0) * c.real(0.2, 3.5), D2 = (p1 - p0) * c.real(0.2, 3.5);
      break;
  }
}
static void edgeCase(Ctx &c)
{
  double p0, p1, D1, D2;
  genEdge(c, p0, p1, D1, D2);
  double dx = c.coin() ? 1.0 : c.coin() ? ldexp(1.0, c.integer(-6, 4)) : c.magnitude(-3, 2);
  double s0 = D1 / dx, s1 = D2 / dx;
  PBT_NOTE(c, "edge phi0=" << p0 << " slope0=" << s0 << " phi1=" << p1 << " slope1=" << s1 << " dx=" << dx);
  LimitSet w = limitRef(p0, s0, p1, s1, dx, true);
  c.label(w.certain ? PBT_STR("branch " << w.branch) : "undecided tie");
  LD tol = 256 * EPS * w.scale + 1e-290L;
  bool haveDirect = false;
  double lim[4];
#ifdef HAVE_GCP
  haveDirect = true;
  double un[4], un2[4];
  toArr(GALS::INTERPOLATION::get_control_points(p0, s0, p1, s1, dx), un);
  toArr(GALS::INTERPOLATION::get_control_points(p0, s0, p1, s1, dx, false), un2);
  toArr(GALS::INTERPOLATION::get_control_points(p0, s0, p1, s1, dx, true), lim);
  LD u[4] = {p0, (LD)p0 + (LD)s0 * dx / 3, (LD)p1 - (LD)s1 * dx / 3, p1};
  for (int q = 0; q < 4; ++q) {
    PBT_CHECK(pbt::close(un[q], u[q], tol) && pbt::close(un2[q], u[q], tol), "unlimited control value " << q << " is " << un[q] << ", expected " << u[q]);
  }
  PBT_CHECK(un[0] == p0 && un[3] == p1, "unlimited end values changed");
  PBT_CHECK(lim[0] == p0 && lim[3] == p1, "limited end values changed: " << lim[0] << " " << lim[3] << " for " << p0 << " " << p1);
  bool any = false;
  for (auto &o : w.ok) any |= pbt::close(lim[1], o.c[1], tol) && pbt::close(lim[2], o.c[2], tol);
  PBT_CHECK(any, "limited inner control values " << lim[1] << ", " << lim[2] << " but the limiter (branch " << w.branch << ") gives " << w.ok[0].c[1] << ", " << w.ok[0].c[2] << " for phi0=" << p0 << " slope0=" << s0
                                                 << " phi1=" << p1 << " slope1=" << s1 << " dx=" << dx);
  // scaling by a signed power of two is exact and cannot move a decision
  double f = (c.coin() ? -1 : 1) * ldexp(1.0, c.integer(-6, 6)), g[4];
  toArr(GALS::INTERPOLATION::get_control_points(p0 * f, s0 * f, p1 * f, s1 * f, dx, true), g);
  for (int q = 0; q < 4; ++q) PBT_CHECK(pbt::close(g[q], (LD)f * lim[q], tol * fabs(f)), "scaling the data by " << f << " does not scale limited control value " << q << ": " << g[q] << " vs " << f * lim[q]);
#endif
  // the same edge through the 1D interpolant
  GridSpec s;
  s.dim = 1, s.pad = 0, s.n[0] = 2, s.lo[0] = 0, s.hi[0] = 2 * dx;
  auto gr = makeGrid<1>(s);
  gc::Levelset<G<1>, double> ls(*gr);
  ls.phiPrev()(0, 0, 0) = p0, ls.phiPrev()(1, 0, 0) = p1;
  ls.psiPrev()(0, 0, 0) = V3(s0, 0, 0), ls.psiPrev()(1, 0, 0) = V3(s1, 0, 0);
  Herm<1> h;
  const double ts[] = {0.25, 0.5, 0.8125};
  // one and the same outcome has to explain every probed point
  double v[3], d[3];
  for (int t = 0; t < 3; ++t) {
    auto r = h.interpolate(*gr, V3(dx * (0.5 + ts[t]), 0, 0), ls, true);
    v[t] = r.phi_interpolated, d[t] = r.psi_interpolated[0];
  }
  bool any1 = false;
  for (auto &o : w.ok) {
    bool all = true;
    for (int t = 0; t < 3; ++t) all &= pbt::close(v[t], bern(o.c, ts[t]), 64 * tol) && pbt::close(d[t], bernD(o.c, ts[t]) / dx, 256 * tol / dx);
    any1 |= all;
  }
  PBT_CHECK(any1, "limited 1D interpolant takes " << v[0] << " " << v[1] << " " << v[2] << " with slopes " << d[0] << " " << d[1] << " " << d[2] << "; the limiter (branch " << w.branch << ") gives " << bern(w.ok[0].c, ts[0]) << " "
                                                  << bern(w.ok[0].c, ts[1]) << " " << bern(w.ok[0].c, ts[2]));
  (void)haveDirect;
  if (w.branch) c.nontrivial();
}
template <int D>
static void fieldCase(Ctx &c)
{
  GridSpec s = genHermGrid(c, D, 2, 20, 6, 4);
  HermiteData h = genHermiteData(c, s);
  std::unique_ptr<G<D>> g;
  bool affine = c.coin(1, 6), exact = !affine && c.coin(1, 5);
  if (exact) {  // integer data with slopes that are multiples of three, cell sizes powers of two
    for (int a = 0; a < D; ++a) s.lo[a] = c.integer(-2, 2), s.hi[a] = s.lo[a] + s.n[a] * ldexp(1.0, c.integer(-3, 1));
  }
  g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g), l2(*g);
  double co[4] = {(double)c.integer(-3, 3), 0, 0, 0};
  for (int a = 0; a < D; ++a) co[a + 1] = c.integer(-3, 3);
  auto data = [&](int i, int j, int k, int mask) -> double {
    if (exact) {
      uint64_t r = pbt::hash64(h.d.seed + mask, (uint64_t)key(i, j, k));
      double v = (double)(int)(pbt::splitmix(r) % 7) - 3;
      if (mask) v *= 3;
      for (int a = 0; a < D; ++a)
        if ((mask >> a) & 1) v /= (double)s.dx(a);
      return v;
    }
    if (!affine) return h(i, j, k, mask);
    int id[3] = {i, j, k};
    LD v = co[0];
    for (int a = 0; a < D; ++a) v += co[a + 1] * (LD)id[a];
    if (mask == 0) return (double)v;
    for (int a = 0; a < D; ++a)
      if (mask == 1 << a) return (double)(co[a + 1] / s.dx(a));
    return 0;
  };
  setPrev<D>(ls, s, data);
  double f = (c.coin() ? -1 : 1) * ldexp(1.0, c.integer(-5, 5));
  setPrev<D>(l2, s, [&](int i, int j, int k, int m) { return f * data(i, j, k, m); });
  PBT_NOTE(c, s.str() << (affine ? " affine" : exact ? " exact" : "") << " data kind " << h.d.kind << " scale " << h.d.scale);
  auto before = prevSnapshot<D>(ls);
  Herm<D> herm;
  bool limited = false;
  int np = 1 + (int)c.draw(6);
  for (int t = 0; t < np; ++t) {
    // an edge along axis ax: the other local coordinates are 0 or 1
    int ax = (int)c.draw(D);
    long cell[3] = {0, 0, 0};
    LD u[3] = {0, 0, 0};
    LD off = 1e-9L;
    for (int a = 0; a < D; ++a) {
      cell[a] = c.integer(-s.pad, s.n[a] + s.pad - 2);
      if (a == ax) {
        u[a] = c.coin(1, 6) ? (c.coin() ? off : 1 - off) : c.coin() ? 0.5L : c.real(0.03, 0.97);
      } else
        u[a] = (c.coin() ? 1 : 0) + (c.coin() ? 0 : c.coin() ? off : -off);
      if (u[a] < 0) u[a] = off;
      if (u[a] > 1) u[a] = 1 - off;
    }
    V3 x = pointIn<D>(s, cell, u);
    RefEval w0 = refEval<D>(s, data, x);
    int n0[3] = {0, 0, 0}, n1[3] = {0, 0, 0};
    LD de = 0;
    for (int a = 0; a < D; ++a) {
      n0[a] = n1[a] = (int)cell[a] + (a != ax && u[a] > 0.5L);
      de += 16 * s.etaTol(a);
    }
    n1[ax]++;
    LimitSet L = limitRef(data(n0[0], n0[1], n0[2], 0), data(n0[0], n0[1], n0[2], 1 << ax), data(n1[0], n1[1], n1[2], 0), data(n1[0], n1[1], n1[2], 1 << ax), s.dx(ax), true);
    limited |= L.branch == 1 || L.branch == 2 || L.branch == 3;
    LD eta = ((LD)x[ax] - s.node(ax, cell[ax])) / s.dx(ax);
    // scale bounds every control value of the cells around the edge
    LD S = w0.scale;
    for (int m = 0; m < (1 << D); ++m) {
      long b[3] = {0, 0, 0};
      bool ok = true;
      for (int a = 0; a < D; ++a) {
        b[a] = cell[a] + (a == ax ? 0 : ((m >> a) & 1) ? (u[a] > 0.5L ? 1 : -1) : 0);
        ok &= b[a] >= -s.pad && b[a] <= s.n[a] + s.pad - 2;
      }
      if (!ok) continue;
      LD v, gr[3], sc, e[3] = {0.5L, 0.5L, 0.5L}, dxs[3];
      for (int a = 0; a < D; ++a) dxs[a] = s.dx(a);
      hermiteCell(D, data, b, e, dxs, v, gr, sc);
      S = std::max(S, sc);
    }
    LD tol = S * (4e-8L + 64 * de) + 1e-290L, tolG = tol * 24 / s.dx(ax);
    auto r = herm.interpolate(*g, x, ls, true);
    bool any = false;
    for (auto &o : L.ok) any |= pbt::close(r.phi_interpolated, bern(o.c, eta), tol) && pbt::close(r.psi_interpolated[ax], bernD(o.c, eta) / s.dx(ax), tolG);
    PBT_CHECK(any, D << "D limited interpolant on an edge along axis " << ax << " at (" << x << ") is " << r.phi_interpolated << " with slope " << r.psi_interpolated[ax] << "; the limited edge interpolant (branch " << L.branch << ") is "
                     << bern(L.ok[0].c, eta) << " slope " << bernD(L.ok[0].c, eta) / s.dx(ax) << " tolerance " << tol << " for " << s.str());
    if (u[ax] == off || u[ax] == 1 - off)
      PBT_CHECK(pbt::close(r.phi_interpolated, u[ax] > 0.5L ? data(n1[0], n1[1], n1[2], 0) : data(n0[0], n0[1], n0[2], 0), 4 * tol), "limited interpolant does not take the nodal value at a node");
    // anywhere: scaling, affine reproduction
    V3 y = genPoint<D>(c, s);
    auto ry = herm.interpolate(*g, y, ls, true), r2 = herm.interpolate(*g, y, l2, true);
    RefEval wy = refEval<D>(s, data, y);
    LD ts = wy.scale * fabs(f) * 4e-13L + 1e-290L;
    PBT_CHECK(pbt::close(r2.phi_interpolated, (LD)f * ry.phi_interpolated, ts), "limited interpolant is not homogeneous: factor " << f << " gives " << r2.phi_interpolated << " vs " << f * ry.phi_interpolated);
    for (int a = 0; a < D; ++a)
      PBT_CHECK(pbt::close(r2.psi_interpolated[a], (LD)f * ry.psi_interpolated[a], 24 * ts / s.dx(a)), "limited gradient is not homogeneous along axis " << a);
    if (affine) {
      PBT_CHECK(pbt::close(ry.phi_interpolated, wy.val, 64 * wy.tolV), "limiting changes affine data: " << ry.phi_interpolated << " vs " << wy.val << " at (" << y << ") for " << s.str());
      for (int a = 0; a < D; ++a)
        PBT_CHECK(pbt::close(ry.psi_interpolated[a], wy.grad[a], 64 * wy.tolG[a]), "limiting changes the gradient of affine data along axis " << a << ": " << ry.psi_interpolated[a] << " vs " << wy.grad[a] << " for " << s.str());
    }
  }
  PBT_CHECK(sameBits(before, prevSnapshot<D>(ls)), "limited interpolation modified its source");
  c.label(PBT_STR(D << "D field"));
  if (limited) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.weighted({5, 1, 2, 3})) {
    case 0: return edgeCase(c);
    case 1: return fieldCase<1>(c);
    case 2: return fieldCase<2>(c);
    default: return fieldCase<3>(c);
  }
}
PBT_MAIN("C11", "edge data over all branches/ties and random fields with limiting on; non-trivial: at least one probed edge is actually limited (branch 1, 2 or 3)", prop)
