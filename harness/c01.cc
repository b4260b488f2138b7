#include "gals_gen.h"
// C01: generated grids place every node, ghost nodes included, at its cell centre.
template <int D>
static void verify(const GridSpec &s, G<D> &g)
{
  const G<D> &cg = g;
  PBT_CHECK(cg.dimension() == D, "dimension() = " << cg.dimension() << " for " << s.str());
  PBT_CHECK(G<D>::dim == D, "dim constant");
  const int *mask = cg.getMask();
  for (int a = 0; a < 3; ++a) PBT_CHECK(mask[a] == (a < D ? 1 : 0), "mask[" << a << "] = " << mask[a] << " for " << s.str());
  const I3 n = cg.numCells();
  for (int a = 0; a < 3; ++a) PBT_CHECK(n[a] == s.n[a], "numCells[" << a << "] = " << n[a] << " for " << s.str());
  PBT_CHECK(cg.getPadding() == s.pad, "padding " << cg.getPadding() << " for " << s.str());
  size_t total = 1;
  for (int a = 0; a < D; ++a) total *= s.n[a];
  PBT_CHECK(cg.totalCells() == total, "totalCells " << cg.totalCells() << " != " << total << " for " << s.str());
  PBT_CHECK((long)cg.size() == s.slots(), "size " << cg.size() << " != " << s.slots() << " for " << s.str());
  for (int a = 0; a < D; ++a) {
    PBT_CHECK(pbt::close(cg.dX()[a], s.dx(a), s.posTol(a)), "dX[" << a << "] = " << cg.dX()[a] << " for " << s.str());
    PBT_CHECK(pbt::close((LD)cg.oneOverDX()[a] * (LD)cg.dX()[a], 1.0L, 1e-14L),
              "oneOverDX[" << a << "] = " << cg.oneOverDX()[a] << " not the reciprocal of " << cg.dX()[a] << " for " << s.str());
  }
  s.padded([&](int i, int j, int k) {
    const V3 &x = cg(i, j, k);
    int id[3] = {i, j, k};
    for (int a = 0; a < D; ++a)
      PBT_CHECK(pbt::close(x[a], s.node(a, id[a]), s.posTol(a)), "node (" << i << "," << j << "," << k << ") axis " << a << " at " << x[a]
                                                                           << ", expected " << s.node(a, id[a]) << " for " << s.str());
    for (int a = D; a < 3; ++a)
      PBT_CHECK(x[a] == 0, "node (" << i << "," << j << "," << k << ") has coordinate " << x[a] << " along missing axis " << a);
  });
}
template <int D>
static void run(Ctx &c)
{
  bool big = c.coin(1, 12);
  GridSpec s = big ? genGrid(c, D, 0, 5, 3000, 90, 20) : genGrid(c, D, 0, 5, 64, 24, 9);
  bool defpad = c.coin(1, 6);
  if (defpad) s.pad = 1;
  int steps = 1 + (int)c.weighted({5, 3, 2, 1});
  std::unique_ptr<G<D>> g;
  if (D == 1 && c.coin())
    g.reset(new G<D>(s.n[0]));
  else if (D <= 2 && c.coin())
    g.reset(new G<D>(s.n[0], s.n[1]));
  else
    g.reset(new G<D>(s.n[0], s.n[1], s.n[2]));
  if (!defpad) g->setPadding(s.pad);
  bool aniso = false;
  for (int st = 0; st < steps; ++st) {
    if (st) {
      if (c.coin(2, 3)) {
        s.pad = (int)c.draw(6);
        g->setPadding(s.pad);
      }
      if (c.coin(2, 3)) genBox(c, s);
    }
    g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
    PBT_NOTE(c, (st ? " -> " : "") << s.str());
    verify<D>(s, *g);
    if (st) {
      auto f = makeGrid<D>(s);
      PBT_CHECK(f->size() == g->size(), "regenerated grid has another size than a fresh one for " << s.str());
      s.padded([&](int i, int j, int k) {
        for (int a = 0; a < 3; ++a)
          PBT_CHECK(bitEq((*f)(i, j, k)[a], (*g)(i, j, k)[a]), "regenerated grid differs from a fresh one at (" << i << "," << j << "," << k << ") for " << s.str());
      });
      for (int a = 0; a < D; ++a)
        PBT_CHECK(bitEq(f->dX()[a], g->dX()[a]) && bitEq(f->oneOverDX()[a], g->oneOverDX()[a]), "regenerated cell size differs for " << s.str());
    }
    for (int a = 1; a < D; ++a) aniso |= s.n[a] != s.n[0];
    if (s.pad != 1) c.label("padding != 1");
    if (s.pad == 0) c.label("padding 0");
  }
  if (steps > 1) c.label("regenerated");
  if (aniso) c.label("anisotropic cell counts");
  c.label(D == 1 ? "1D" : D == 2 ? "2D" : "3D");
  if (s.pad != 1 || aniso || steps > 1) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C01", "random dimension/box/cells/padding and 0-3 regenerations; non-trivial: padding != 1, unequal cell counts, or a regeneration", prop)
