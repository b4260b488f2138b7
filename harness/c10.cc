#include "hermite_ref.h"
// C10: metamorphic relations of the Hermite interpolant (no reference implementation involved except relation 1's
// exact polynomial).
template <int D>
struct Lset {
  GridSpec s;
  std::unique_ptr<G<D>> g;
  std::unique_ptr<gc::Levelset<G<D>, double>> ls;
  explicit Lset(const GridSpec &q) : s(q), g(makeGrid<D>(q)), ls(new gc::Levelset<G<D>, double>(*g)) {}
  void eval(const V3 &x, LD &v, LD *gr)
  {
    auto r = Herm<D>().interpolate(*g, x, *ls);
    v = r.phi_interpolated;
    for (int a = 0; a < D; ++a) gr[a] = r.psi_interpolated[a];
  }
};
// local magnitude of the data around a point: bound used for tolerances only
template <int D, class F>
static LD localScale(const GridSpec &s, const F &f, const V3 &x)
{
  LD sc = 0;
  long b[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) b[a] = (long)floorl(((LD)x[a] - s.node(a, 0)) / s.dx(a));
  for (int i = (D > 0 ? -1 : 0); i <= (D > 0 ? 2 : 0); ++i)
    for (int j = (D > 1 ? -1 : 0); j <= (D > 1 ? 2 : 0); ++j)
      for (int k = (D > 2 ? -1 : 0); k <= (D > 2 ? 2 : 0); ++k) {
        int I = (int)b[0] + i, J = (int)b[1] + j, K = (int)b[2] + k;
        if (!s.inPadded(I, J, K)) continue;
        for (int m = 0; m < (1 << D); ++m) {
          LD v = fabsl((LD)f(I, J, K, m));
          for (int a = 0; a < D; ++a)
            if ((m >> a) & 1) v *= s.dx(a);
          sc += v;
        }
      }
  return sc;
}
static LD deltaEta(const GridSpec &s)
{
  LD d = 0;
  for (int a = 0; a < s.dim; ++a) d += 4 * s.etaTol(a);
  return d;
}
template <int D>
static void nodes(Ctx &c)
{
  GridSpec s = genHermGrid(c, D);
  Lset<D> L(s);
  HermiteData h = genHermiteData(c, s);
  setPrev<D>(*L.ls, s, h);
  PBT_NOTE(c, "nodes " << s.str());
  int np = 1 + (int)c.draw(6);
  LD de = deltaEta(s);
  for (int t = 0; t < np; ++t) {
    int id[3] = {0, 0, 0};
    long cell[3];
    LD u[3];
    bool edge = false;
    for (int a = 0; a < D; ++a) {
      id[a] = c.integer(-s.pad, s.n[a] - 1 + s.pad);
      cell[a] = id[a], u[a] = 0;
      if (id[a] == s.n[a] - 1 + s.pad || id[a] == -s.pad) edge = true;
    }
    V3 x(0, 0, 0);
    if (edge) {
      for (int a = 0; a < D; ++a)
        if (id[a] == s.n[a] - 1 + s.pad) cell[a]--, u[a] = 1;
      x = pointIn<D>(s, cell, u);
    } else
      for (int a = 0; a < D; ++a) x[a] = (*L.g)(id[0], id[1], id[2])[a];
    LD v, g[3];
    L.eval(x, v, g);
    LD sc = localScale<D>(s, h, x);
    LD m = edge ? 1e-8L : 0;
    PBT_CHECK(pbt::close(v, h(id[0], id[1], id[2], 0), sc * (400 * EPS + 4 * de + m)), "nodal value not reproduced at node (" << id[0] << "," << id[1] << "," << id[2] << "): " << v << " vs " << h(id[0], id[1], id[2], 0) << " for " << s.str());
    for (int a = 0; a < D; ++a)
      PBT_CHECK(pbt::close(g[a], h(id[0], id[1], id[2], 1 << a), sc / s.dx(a) * (2000 * EPS + 24 * de + 10 * m)), "nodal gradient axis " << a << " not reproduced at node (" << id[0] << "," << id[1] << "," << id[2] << "): " << g[a] << " vs "
                                                                                                                     << h(id[0], id[1], id[2], 1 << a) << " for " << s.str());
  }
  c.nontrivial();
}
struct TensorPoly {  // sum over exponents of co * prod t_a^e_a, t_a = (x_a-lo_a)/(hi_a-lo_a)
  int D;
  double co[4][4][4];
  LD ext[3];
  LD at(const LD *t, int mask, int ax = -1, LD *bound = nullptr) const
  {  // derivative w.r.t. the axes in mask and additionally ax
    LD s = 0, bd = 0;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < (D > 1 ? 4 : 1); ++j)
        for (int k = 0; k < (D > 2 ? 4 : 1); ++k) {
          int e[3] = {i, j, k};
          LD w = co[i][j][k], ab = fabsl(w);
          for (int a = 0; a < D; ++a) {
            int n = ((mask >> a) & 1) + (a == ax);
            int x = e[a];
            LD f = 1;
            for (int q = 0; q < n; ++q) f *= x--;
            LD p = 1;
            for (int q = 0; q < x; ++q) p *= t[a];
            if (f == 0) p = 0;
            w *= f * p, ab *= fabsl(f * p);
            for (int q = 0; q < n; ++q) w /= ext[a], ab /= ext[a];
          }
          s += w, bd += ab;
        }
    if (bound) *bound = bd;
    return s;
  }
};
template <int D>
static void polys(Ctx &c)
{
  GridSpec s = genHermGrid(c, D);
  Lset<D> L(s);
  TensorPoly P;
  P.D = D;
  bool sparse = c.coin();
  int hot = (int)c.draw(64);
  for (int i = 0; i < 64; ++i) P.co[i / 16][i / 4 % 4][i % 4] = sparse ? (i == hot ? 1 : 0) : c.integer(-3, 3);
  if (sparse) {
    int e[3] = {hot / 16, hot / 4 % 4, hot % 4};
    memset(P.co, 0, sizeof P.co);
    P.co[e[0]][D > 1 ? e[1] : 0][D > 2 ? e[2] : 0] = 1;
  }
  for (int a = 0; a < 3; ++a) P.ext[a] = (LD)s.hi[a] - s.lo[a];
  auto tt = [&](int i, int j, int k, LD *t) {
    int id[3] = {i, j, k};
    for (int a = 0; a < D; ++a) t[a] = ((LD)id[a] + 0.5L) / s.n[a];
  };
  auto f = [&](int i, int j, int k, int mask) -> double {
    LD t[3];
    tt(i, j, k, t);
    return (double)P.at(t, mask);
  };
  setPrev<D>(*L.ls, s, f);
  PBT_NOTE(c, "polynomial " << s.str());
  int np = 1 + (int)c.draw(5);
  LD de = deltaEta(s);
  for (int q = 0; q < np; ++q) {
    V3 x = genPoint<D>(c, s);
    LD v, g[3], t[3];
    L.eval(x, v, g);
    for (int a = 0; a < D; ++a) t[a] = ((LD)x[a] - s.lo[a]) / P.ext[a];
    LD sc = localScale<D>(s, f, x), bd;
    LD w = P.at(t, 0, -1, &bd);
    // the local scale plus the size of the polynomial's terms (their cancellation costs accuracy)
    sc += 64 * bd;
    PBT_CHECK(pbt::close(v, w, sc * (400 * EPS + 4 * de)), "degree-3 polynomial not reproduced at (" << x << "): " << v << " vs " << w << " for " << s.str());
    for (int a = 0; a < D; ++a) {
      LD wg = P.at(t, 0, a);
      PBT_CHECK(pbt::close(g[a], wg, sc / s.dx(a) * (2000 * EPS + 24 * de)), "gradient of a degree-3 polynomial not reproduced along axis " << a << " at (" << x << "): " << g[a] << " vs " << wg << " for " << s.str());
    }
  }
  c.nontrivial();
}
template <int D>
static void smooth(Ctx &c)
{  // C1 across a face, and gradient = derivative of the value
  GridSpec s = genHermGrid(c, D);
  Lset<D> L(s);
  HermiteData h = genHermiteData(c, s);
  setPrev<D>(*L.ls, s, h);
  LD de = deltaEta(s);
  int ax = (int)c.draw(D);
  long cell[3];
  LD u[3];
  for (int a = 0; a < D; ++a) cell[a] = c.integer(-s.pad, s.n[a] + s.pad - 2), u[a] = 0.05L + 0.9L * c.unit();
  PBT_NOTE(c, "smoothness axis " << ax << " " << s.str());
  if (s.n[ax] + 2 * s.pad >= 3 && c.coin()) {
    if (cell[ax] == s.n[ax] + s.pad - 2) cell[ax]--;
    const LD e = 1e-7L;
    u[ax] = 1 - e;
    V3 x1 = pointIn<D>(s, cell, u);
    cell[ax]++;
    u[ax] = e;
    V3 x2 = pointIn<D>(s, cell, u);
    LD v1, v2, g1[3], g2[3];
    L.eval(x1, v1, g1), L.eval(x2, v2, g2);
    LD sc = localScale<D>(s, h, x1) + localScale<D>(s, h, x2);
    PBT_CHECK(pbt::close(v1, v2, sc * (12 * e + 8 * de + 400 * EPS)), "value jumps across the face normal to axis " << ax << " near (" << x1 << "): " << v1 << " vs " << v2 << " for " << s.str());
    for (int a = 0; a < D; ++a)
      PBT_CHECK(pbt::close(g1[a], g2[a], sc / s.dx(a) * (80 * e + 50 * de + 2000 * EPS)), "gradient component " << a << " jumps across the face normal to axis " << ax << " near (" << x1 << "): " << g1[a] << " vs " << g2[a] << " for " << s.str());
    c.label("face continuity");
  } else {
    const LD hh = 0.0625L;
    u[ax] = 0.2L + 0.6L * c.unit();
    LD val[5], g[3], gm[3], p[5];
    for (int q = -2; q <= 2; ++q) {
      LD uu[3] = {u[0], D > 1 ? u[1] : 0, D > 2 ? u[2] : 0};
      uu[ax] += q * hh;
      V3 x = pointIn<D>(s, cell, uu);
      L.eval(x, val[q + 2], q == 0 ? gm : g);
      p[q + 2] = x[ax];
    }
    LD d = (8 * (val[3] - val[1]) - (val[4] - val[0])) / (12 * hh * s.dx(ax));
    V3 x = pointIn<D>(s, cell, u);
    LD sc = localScale<D>(s, h, x);
    PBT_CHECK(pbt::close(gm[ax], d, sc / s.dx(ax) * (8000 * EPS + 400 * de)), "gradient along axis " << ax << " at (" << x << ") is " << gm[ax] << " but the value changes at rate " << d << " for " << s.str());
    c.label("gradient = derivative");
  }
  if (h.d.kind != 5) c.nontrivial();
}
template <int D>
static void linear(Ctx &c)
{
  GridSpec s = genHermGrid(c, D);
  Lset<D> A(s), B(s), C(s);
  HermiteData ha = genHermiteData(c, s), hb = genHermiteData(c, s);
  double al = c.signedReal(3), be = c.signedReal(3);
  auto hc = [&](int i, int j, int k, int m) -> double { return al * ha(i, j, k, m) + be * hb(i, j, k, m); };
  setPrev<D>(*A.ls, s, ha), setPrev<D>(*B.ls, s, hb), setPrev<D>(*C.ls, s, hc);
  PBT_NOTE(c, "linearity " << al << "," << be << " " << s.str());
  LD de = deltaEta(s);
  V3 x = genPoint<D>(c, s);
  LD va, vb, vc, ga[3], gb[3], g2[3];
  A.eval(x, va, ga), B.eval(x, vb, gb), C.eval(x, vc, g2);
  LD sc = fabs(al) * localScale<D>(s, ha, x) + fabs(be) * localScale<D>(s, hb, x);
  PBT_CHECK(pbt::close(vc, al * va + be * vb, sc * (800 * EPS + 8 * de)), "value not linear in the data at (" << x << ") for " << s.str());
  for (int a = 0; a < D; ++a) PBT_CHECK(pbt::close(g2[a], al * ga[a] + be * gb[a], sc / s.dx(a) * (4000 * EPS + 48 * de)), "gradient not linear in the data, axis " << a << " at (" << x << ") for " << s.str());
  c.nontrivial();
}
template <int D>
static void transform(Ctx &c)
{  // translation, scaling and permutation of the axes
  GridSpec s = genHermGrid(c, D);
  HermiteData h = genHermiteData(c, s);
  std::vector<int> perm = c.permutation(D);  // new axis a = old axis perm[a]
  double sh[3], la[3];
  for (int a = 0; a < D; ++a) sh[a] = c.coin() ? c.signedReal(5) : 0, la[a] = c.coin() ? c.magnitude(-2, 2) : 1;
  GridSpec t = s;
  for (int a = 0; a < D; ++a) {
    int o = perm[a];
    t.n[a] = s.n[o];
    t.lo[a] = s.lo[o] * la[o] + sh[o];
    t.hi[a] = t.lo[a] + (s.hi[o] - s.lo[o]) * la[o];
  }
  Lset<D> A(s), B(t);
  setPrev<D>(*A.ls, s, h);
  auto hb = [&](int i, int j, int k, int m) -> double {
    int nid[3] = {i, j, k}, id[3] = {0, 0, 0}, mask = 0;
    double f = 1;
    for (int a = 0; a < D; ++a) {
      id[perm[a]] = nid[a];
      if ((m >> a) & 1) mask |= 1 << perm[a], f /= la[perm[a]];
    }
    return h(id[0], id[1], id[2], mask) * f;
  };
  setPrev<D>(*B.ls, t, hb);
  long cell[3], ct[3];
  LD u[3], ut[3];
  for (int a = 0; a < D; ++a) cell[a] = c.integer(-s.pad, s.n[a] + s.pad - 2), u[a] = c.coin(1, 4) ? 0.5L : (LD)c.unit();
  for (int a = 0; a < D; ++a) ct[a] = cell[perm[a]], ut[a] = u[perm[a]];
  V3 x = pointIn<D>(s, cell, u), y = pointIn<D>(t, ct, ut);
  LD v, w, g[3], gw[3];
  A.eval(x, v, g), B.eval(y, w, gw);
  LD de = 2 * deltaEta(s) + 2 * deltaEta(t) + 4e-10L * 0;
  LD sc = localScale<D>(s, h, x) + localScale<D>(t, hb, y);
  // hull margins of the two grids may differ slightly
  LD mg = 0;
  for (int a = 0; a < D; ++a) mg += 32 * (s.etaTol(a) + t.etaTol(a));
  PBT_NOTE(c, "transform " << s.str() << " -> " << t.str());
  PBT_CHECK(pbt::close(v, w, sc * (800 * EPS + 8 * de + 4 * mg)), "interpolated value does not commute with the transformation at (" << x << ")/(" << y << "): " << v << " vs " << w << " for " << s.str() << " -> " << t.str());
  for (int a = 0; a < D; ++a)
    PBT_CHECK(pbt::close(gw[a] * la[perm[a]], g[perm[a]], sc / s.dx(perm[a]) * (4000 * EPS + 48 * de + 24 * mg)), "interpolated gradient does not commute with the transformation, axis " << a << ": " << gw[a] * la[perm[a]] << " vs " << g[perm[a]]
                                                                                                                    << " for " << s.str() << " -> " << t.str());
  bool nontriv = false;
  for (int a = 0; a < D; ++a) nontriv |= perm[a] != a || sh[a] != 0 || la[a] != 1;
  if (nontriv) c.nontrivial();
}
template <int D>
static void bulk(Ctx &c)
{
  GridSpec s = genHermGrid(c, D);
  Lset<D> L(s);
  HermiteData h = genHermiteData(c, s);
  setPrev<D>(*L.ls, s, h);
  setRest<D>(*L.ls, s, genData(c));
  GridSpec q = s;
  if (c.coin()) {
    genBox(c, q);
    for (int a = 0; a < D; ++a) q.n[a] = c.integer(1, s.n[a]);
    q.pad = (int)c.draw(4);
    c.label("query array on another grid");
  }
  auto gq = makeGrid<D>(q);
  gc::Array<G<D>, V3> x(*gq);
  q.padded([&](int i, int j, int k) { x(i, j, k) = V3(1e6, -1e6, 1e6); });
  uint64_t seed = c.bits();
  // some query arrays hold only a few different points, so neighbours often coincide
  int distinct = c.coin(1, 3) ? c.integer(1, 4) : 0;
  double nudge = distinct && c.coin() ? c.magnitude(-11, -2) : 0;
  V3 few[4];
  for (int t = 0; t < distinct; ++t) few[t] = genPoint<D>(c, s);
  q.interior([&](int i, int j, int k) {
    uint64_t r = pbt::hash64(seed, key(i, j, k));
    long cell[3];
    LD u[3];
    for (int a = 0; a < D; ++a) cell[a] = -s.pad + (long)(pbt::splitmix(r) % (uint64_t)(s.n[a] + 2 * s.pad - 1)), u[a] = (LD)(pbt::splitmix(r) >> 11) * 0x1p-53L;
    x(i, j, k) = pointIn<D>(s, cell, u);
    if (distinct && pbt::splitmix(r) % 3 != 0) x(i, j, k) = few[pbt::splitmix(r) % (uint64_t)distinct];
    if (nudge != 0 && pbt::splitmix(r) % 2)  // almost the same point
      for (int a = 0; a < D; ++a) {
        double m = (double)(pbt::splitmix(r) >> 11) * 0x1p-53, y = x(i, j, k)[a] + (double)s.dx(a) * nudge * m;
        if (y < s.node(a, s.n[a] + s.pad - 1) - 1e-3L * s.dx(a) - 64 * s.posTol(a)) x(i, j, k)[a] = y;
      }
  });
  Herm<D> engine;
  int rounds = c.coin(1, 3) ? c.integer(2, 3) : 1;
  for (int round = 0; round < rounds; ++round) {
  if (round && c.coin(3, 4)) {  // the same query points again after the data changed
    h = genHermiteData(c, s);
    setPrev<D>(*L.ls, s, h);
  }
  if (round && c.coin()) setRest<D>(*L.ls, s, genData(c));
  auto p0 = prevSnapshot<D>(*L.ls), c0 = currentSnapshot<D>(*L.ls), x0 = snapshot(x), gp = ghostSnapshot(L.ls->phiInterpPrev(), s);
  PBT_NOTE(c, "bulk " << s.str() << " query " << q.str());
  if (c.coin(1, 4))
    engine.compute(x, *L.ls);
  else
    gc::Interpolate<double, G<D>, Herm<D>>::compute(x, *L.ls);
  PBT_CHECK(sameBits(p0, prevSnapshot<D>(*L.ls)), "bulk interpolation changed its source data for " << s.str());
  PBT_CHECK(sameBits(c0, currentSnapshot<D>(*L.ls)), "bulk interpolation changed the current fields for " << s.str());
  PBT_CHECK(sameBits(x0, snapshot(x)), "bulk interpolation changed the query points");
  LD de = deltaEta(s);
  q.interior([&](int i, int j, int k) {
    LD v, g[3];
    V3 p = x(i, j, k);
    L.eval(p, v, g);
    LD sc = localScale<D>(s, h, p);
    PBT_CHECK(pbt::close(L.ls->phiInterpPrev()(i, j, k), v, sc * (64 * EPS + de)), "bulk value at index (" << i << "," << j << "," << k << ") is " << L.ls->phiInterpPrev()(i, j, k) << ", single-point result " << v << " for " << s.str());
    for (int a = 0; a < D; ++a)
      PBT_CHECK(pbt::close(L.ls->psiInterpPrev()(i, j, k)[a], g[a], sc / s.dx(a) * (256 * EPS + 6 * de)), "bulk gradient axis " << a << " at index (" << i << "," << j << "," << k << ") is " << L.ls->psiInterpPrev()(i, j, k)[a] << ", single-point result "
                                                                                                          << g[a] << " for " << s.str());
  });
  PBT_CHECK(sameBits(gp, ghostSnapshot(L.ls->phiInterpPrev(), s)), "bulk interpolation wrote ghost cells");
  }
  c.nontrivial();
}
template <int D>
static void run(Ctx &c)
{
  int r = (int)c.draw(6);
  static const char *nm[] = {"nodes", "polynomials", "smoothness", "linearity", "transform", "bulk"};
  c.label(PBT_STR(nm[r] << " " << D << "D"));
  switch (r) {
    case 0: return nodes<D>(c);
    case 1: return polys<D>(c);
    case 2: return smooth<D>(c);
    case 3: return linear<D>(c);
    case 4: return transform<D>(c);
    default: return bulk<D>(c);
  }
}
static void prop(Ctx &c)
{
  switch (c.draw(4)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C10", "six metamorphic relations (nodes, polynomials, smoothness, linearity, grid transformations, bulk=single) on random grids and data; non-trivial: non-constant data and, for transformations, not the identity", prop)
