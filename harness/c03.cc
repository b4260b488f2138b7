#include "gals_gen.h"
// C03: cell lookup returns the cell of nodes that encloses a position.
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genGrid(c, D, 0, 5, 400, 40, 12);
  bool dyadic = c.coin(1, 3);
  if (dyadic) {  // all quantities exactly representable: no rounding allowance at all
    for (int a = 0; a < D; ++a) {
      s.n[a] = 1 << c.draw(5);
      double d = ldexp(1.0, (int)c.draw(7) - 4);
      s.lo[a] = d * c.integer(-40, 40);
      s.hi[a] = s.lo[a] + d * s.n[a];
    }
  }
  auto g = makeGrid<D>(s);
  if (c.coin(1, 4)) {
    if (!dyadic) genBox(c, s);
    s.pad = (int)c.draw(6);
    g->setPadding(s.pad);
    g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
  }
  PBT_NOTE(c, s.str() << (dyadic ? " dyadic" : "") << "; points:");
  int pts = 1 + (int)c.draw(12);
  bool interesting = false;
  gc::Array<G<D>, double> field(*g);
  for (int t = 0; t < pts; ++t) {
    V3 x(c.signedReal(3), c.signedReal(3), c.signedReal(3));  // missing axes hold arbitrary coordinates
    if (c.coin(1, 4)) x = V3(0, 0, 0);
    for (int a = 0; a < D; ++a) {
      int over = c.coin(1, 4) ? (c.coin(1, 4) ? c.integer(4, 3000) : 3) : 0;
      long i = c.integer(-s.pad - over, s.n[a] - 1 + s.pad + over);
      double frac;
      switch (c.draw(dyadic ? 5 : 6)) {
        case 0: frac = 0.5; break;
        case 1: frac = dyadic ? c.draw(16) / 16.0 : c.real(0, 1); break;
        case 2: frac = 0; break;  // exactly at a node
        case 3: frac = dyadic ? 1 - ldexp(1.0, -20) : (c.coin() ? 1e-6 : 1 - 1e-6); break;
        case 4: {  // ever closer to a node, on either side
          int e = c.integer(1, dyadic ? 34 : 40);
          frac = ldexp(1.0, -e);
          if (c.coin()) frac = 1 - frac;
          break;
        }
        default: frac = c.unit(); break;
      }
      if (frac == 0 && i >= -s.pad && i < s.n[a] + s.pad && c.coin()) {
        int id[3] = {0, 0, 0};
        id[a] = (int)i;
        x[a] = (*g)(id[0], id[1], id[2])[a];
      } else
        x[a] = (double)(s.node(a, i) + (LD)frac * s.dx(a));
      if (i < 0 || i >= s.n[a] - 1) c.label("outside interior nodes"), interesting = true;
      if (frac == 0) c.label("at a node");
    }
    PBT_NOTE(c, " (" << x << ")");
    const V3 xin = x;
    const I3 b = g->baseNodeId(x);
    for (int a = 0; a < 3; ++a) PBT_CHECK(bitEq(xin[a], x[a]), "lookup changed the position");
    bool inside = true;
    for (int a = 0; a < D; ++a) {
      LD tol = dyadic ? 0 : s.etaTol(a) * s.dx(a) + 16 * EPS * (fabsl((LD)x[a]) + s.dx(a) * labs((long)b[a]));
      LD lo = s.node(a, b[a]), hi = s.node(a, (long)b[a] + 1);
      bool ok = dyadic ? (lo <= x[a] && x[a] < hi) : (lo - tol <= x[a] && x[a] <= hi + tol);
      PBT_CHECK(ok, "baseNodeId axis " << a << " = " << b[a] << " for x = " << x[a] << ": cell is [" << lo << "," << hi << ") for " << s.str());
      inside &= b[a] >= -s.pad && b[a] < s.n[a] + s.pad;
    }
    if (inside) {
      int id[3] = {0, 0, 0};
      for (int a = 0; a < D; ++a) id[a] = b[a];
      PBT_CHECK(&(*g)(b) == &(*g)(id[0], id[1], id[2]), "base node id does not address its own node for " << s.str());
      PBT_CHECK(&field(b) == &field(id[0], id[1], id[2]), "base node id does not address its own field value for " << s.str());
      PBT_CHECK(g->index(b) < (size_t)g->size(), "base node id outside storage");
    }
  }
  if (dyadic) c.label("dyadic (exact)");
  c.label(D == 1 ? "1D" : D == 2 ? "2D" : "3D");
  if (interesting || s.lo[0] != -s.hi[0]) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C03", "random grids with 1-12 positions each, biased to nodes, ghost layers and beyond; non-trivial: a position outside the interior nodes or a box not centred at 0", prop)
