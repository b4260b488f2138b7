#include "hermite_ref.h"
// C09: Hermite interpolation equals the tensor-product cubic Hermite interpolant.
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genHermGrid(c, D);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  HermiteData h = genHermiteData(c, s);
  setPrev<D>(ls, s, h);
  setRest<D>(ls, s, genData(c));
  PBT_NOTE(c, s.str() << " data kind " << h.d.kind << " scale " << h.d.scale << "; points");
  auto before = prevSnapshot<D>(ls);
  int np = 1 + (int)c.draw(8);
  bool ghost = false, tie = false, varied = false;
  Herm<D> herm;
  for (int t = 0; t < np; ++t) {
    V3 x = genPoint<D>(c, s, &ghost, &tie);
    for (int a = D; a < 3; ++a) x[a] = c.coin() ? 0 : c.signedReal(2);
    PBT_NOTE(c, " (" << x << ")");
    auto r = herm.interpolate(*g, x, ls);
    RefEval w = refEval<D>(s, h, x);
    PBT_CHECK(pbt::close(r.phi_interpolated, w.val, w.tolV), "value at (" << x << ") is " << r.phi_interpolated << ", expected " << w.val << " (tolerance " << w.tolV << ") for " << s.str());
    for (int a = 0; a < D; ++a)
      PBT_CHECK(pbt::close(r.psi_interpolated[a], w.grad[a], w.tolG[a]), "gradient axis " << a << " at (" << x << ") is " << r.psi_interpolated[a] << ", expected " << w.grad[a] << " (tolerance " << w.tolG[a] << ") for "
                                                                                           << s.str());
    for (int a = D; a < 3; ++a) PBT_CHECK(r.psi_interpolated[a] == 0, "gradient along missing axis " << a << " is " << r.psi_interpolated[a]);
    varied |= w.grad[0] != 0;
  }
  PBT_CHECK(sameBits(before, prevSnapshot<D>(ls)), "interpolation modified its source");
  if (ghost) c.label("ghost-layer cells");
  if (tie) c.label("points at nodes/faces");
  c.label(PBT_STR(D << "D"));
  if (varied && h.d.kind != 5) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(4)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C09", "arbitrary nodal value/gradient/mixed data on random grids, 1-8 points each; non-trivial: non-constant data with a non-zero derivative at a probed point", prop)
