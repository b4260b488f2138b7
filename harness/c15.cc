#include "gals/analytical-fields/levelset.h"
#include "gals_gen.h"
// C15: circle initial condition.
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genGrid(c, D, 0, 3, 40, 12, 6);
  auto g = makeGrid<D>(s);
  gc::Levelset<G<D>, double> ls(*g);
  Data d = genData(c), e = genData(c);
  fill(ls.phi(), s, d, 0), fill(ls.psi(), s, d, 10), fill(ls.phiMixedDerivatives(), s, d, 20);
  fill(ls.phiPrev(), s, e, 0), fill(ls.psiPrev(), s, e, 10), fill(ls.phiMixedDerivativesPrev(), s, e, 20);
  fill(ls.phiInterpPrev(), s, e, 30), fill(ls.psiInterpPrev(), s, e, 40);
  GALS::INPUT_FIELDS::Levelset in;
  static const char *const names[] = {"CIRCLE", "CIRCLE", "CIRCLE", "CIRCLE", "CIRCLE", "", "circle", "SPHERE", "CIRCLE ", "NOT_DEFINED", "CIRCULAR"};
  in.name = names[c.draw(11)];
  if (c.coin(1, 5)) in.name = nearMiss(c, "CIRCLE");
  bool circle = in.name == "CIRCLE";
  double w = 0;
  for (int a = 0; a < 3; ++a) w = std::max(w, s.hi[a] - s.lo[a]);
  int pm = (int)c.draw(3);  // positions: the grid's, another array, grid's with an offset
  double off = c.signedReal(3) * w;
  gc::Array<G<D>, V3> pos(*g);
  Data pd = genData(c, -1, 1);
  s.padded([&](int i, int j, int k) { pos(i, j, k) = V3(1e5, -1e5, 3e5); });
  s.interior([&](int i, int j, int k) {
    V3 x = (*g)(i, j, k);
    if (pm == 1)
      for (int a = 0; a < 3; ++a) x[a] = pd(key(i, j, k), a);
    if (pm == 2) x[0] += off;
    pos(i, j, k) = x;
  });
  V3 ctr(0, 0, 0);
  switch (c.draw(3)) {
    case 0:  // centre on a cell: value is exactly -radius there
      ctr = pos(c.integer(0, s.n[0] - 1), c.integer(0, s.n[1] - 1), c.integer(0, s.n[2] - 1));
      break;
    default:
      for (int a = 0; a < 3; ++a) ctr[a] = s.lo[a] + (s.hi[a] - s.lo[a]) * c.real(-0.5, 1.5);
      if (c.coin()) ctr[2] = 0;
  }
  in.center = ctr;
  in.radius = c.coin(1, 8) ? 0 : (c.coin(1, 4) ? c.real(0, 8) : c.real(0.01, 2) * w) * (c.coin(1, 8) ? -1 : 1);
  in.gradient_scheme = c.coin() ? "SECOND_ORDER_CENTRAL" : "THIRD_ORDER";
  PBT_NOTE(c, s.str() << " name '" << in.name << "' centre (" << ctr << ") radius " << in.radius << " positions mode " << pm);
  auto all = [&]() {
    std::vector<std::vector<double>> r = {snapshot(ls.psi()), snapshot(ls.phiMixedDerivatives()), snapshot(ls.phiPrev()), snapshot(ls.psiPrev()), snapshot(ls.phiMixedDerivativesPrev()), snapshot(ls.phiInterpPrev()), snapshot(ls.psiInterpPrev()), snapshot(pos)};
    return r;
  };
  auto before = all();
  auto phi0 = snapshot(ls.phi()), gh = ghostSnapshot(ls.phi(), s);
  GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double> f(*g, in);
  int reps = c.coin(1, 5) ? 2 : 1;
  for (int r = 0; r < reps; ++r) f.compute(pos, ls);
  auto after = all();
  for (size_t q = 0; q < before.size(); ++q) PBT_CHECK(sameBits(before[q], after[q]), "initial condition changed field number " << q << " (0 psi, 1 mixed, 2.. previous fields, 7 positions)");
  PBT_CHECK(sameBits(gh, ghostSnapshot(ls.phi(), s)), "initial condition changed ghost cells");
  PBT_CHECK(in.center[0] == ctr[0] && in.center[1] == ctr[1] && in.center[2] == ctr[2], "inputs changed");
  bool inside = false, outside = false;
  if (!circle) {
    PBT_CHECK(sameBits(phi0, snapshot(ls.phi())), "undefined level set name '" << in.name << "' changed the field");
    c.label("undefined name");
  } else
    s.interior([&](int i, int j, int k) {
      V3 x = pos(i, j, k);
      LD r = 0, m = fabs(in.radius);
      for (int a = 0; a < 3; ++a) {
        LD t = (LD)x[a] - ctr[a];
        r += t * t, m += fabs(x[a]) + fabs(ctr[a]);
      }
      LD want = sqrtl(r) - in.radius;
      double got = ls.phi()(i, j, k);
      PBT_CHECK(pbt::close(got, want, 16 * EPS * m), "level set at (" << i << "," << j << "," << k << ") position (" << x << ") is " << got << ", expected " << want << " for centre (" << ctr << ") radius " << in.radius);
      if (got < 0) inside = true;
      if (got > 0) outside = true;
    });
  c.label(PBT_STR(D << "D"));
  if (circle) c.nontrivial();
  if (inside && outside) c.label("interface inside the grid");
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return run<1>(c);
    case 1: return run<2>(c);
    default: return run<3>(c);
  }
}
PBT_MAIN("C15", "random grids, position arrays, centres, radii, names; non-trivial: a defined level set was evaluated", prop)
