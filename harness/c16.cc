#include "gals/analytical-fields/velocity.h"
#include "gals_gen.h"
// C16: circular velocity field.
template <int D>
static void run(Ctx &c)
{
  GridSpec s = genGrid(c, D, 0, 3, 40, 12, 6);
  auto g = makeGrid<D>(s);
  gc::LevelsetVelocity<G<D>, double> vel(*g);
  Data d = genData(c);
  fill(vel.velocity(), s, d, 0), fill(vel.velocityGradient(), s, d, 10);
  GALS::INPUT_FIELDS::Velocity in;
  static const char *const names[] = {"CIRCULAR", "CIRCULAR", "CIRCULAR", "CIRCULAR", "CIRCULAR", "CIRCULAR", "", "circular", "VORTEX", "NOT_DEFINED", "CIRCLE"};
  static const char *const schemes[] = {"ANALYTICAL", "ANALYTICAL", "ANALYTICAL", "", "SECOND_ORDER_CENTRAL", "analytical", "NUMERICAL"};
  in.name = names[c.draw(11)];
  if (c.coin(1, 8)) in.name = nearMiss(c, "CIRCULAR");
  in.gradient_scheme = schemes[c.draw(7)];
  if (c.coin(1, 4)) in.gradient_scheme = nearMiss(c, "ANALYTICAL");
  bool circ = in.name == "CIRCULAR", ana = circ && in.gradient_scheme == "ANALYTICAL";
  int pm = (int)c.draw(2);
  gc::Array<G<D>, V3> pos(*g);
  Data pd = genData(c, -1, 1);
  s.padded([&](int i, int j, int k) { pos(i, j, k) = V3(1e5, -1e5, 3e5); });
  s.interior([&](int i, int j, int k) {
    V3 x = (*g)(i, j, k);
    if (pm == 1)
      for (int a = 0; a < D; ++a) x[a] = pd(key(i, j, k), a);
    pos(i, j, k) = x;
  });
  V3 ctr(0, 0, 0);
  int cm = c.weighted({1, 4, 1});
  for (int a = 0; a < 3; ++a) ctr[a] = cm == 0 ? 0.0 : cm == 1 ? s.lo[a] + (s.hi[a] - s.lo[a]) * c.real(-0.5, 1.5) : 0.5;
  in.center = {ctr[0], ctr[1], ctr[2]};
  in.vector = {c.signedReal(3), c.signedReal(3), c.signedReal(3)};
  double time = c.coin(1, 3) ? 0.0 : c.signedReal(c.coin(1, 4) ? c.magnitude(0, 6) : 20);
  PBT_NOTE(c, s.str() << " name '" << in.name << "' gradient '" << in.gradient_scheme << "' centre (" << ctr << ") time " << time << " positions mode " << pm);
  auto v0 = snapshot(vel.velocity()), m0 = snapshot(vel.velocityGradient()), p0 = snapshot(pos);
  auto gh = ghostSnapshot(vel.velocity(), s), gm = ghostSnapshot(vel.velocityGradient(), s);
  GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double> f(*g, in);
  int reps = c.coin(1, 5) ? 2 : 1;
  for (int r = 0; r < reps; ++r) f.compute(pos, time, vel);
  PBT_CHECK(sameBits(p0, snapshot(pos)), "positions changed");
  PBT_CHECK(sameBits(gh, ghostSnapshot(vel.velocity(), s)) && sameBits(gm, ghostSnapshot(vel.velocityGradient(), s)), "ghost cells of the velocity changed for " << s.str());
  const LD W = acosl(-1.0L) / 3.15L;
  if (!circ) {
    PBT_CHECK(sameBits(v0, snapshot(vel.velocity())) && sameBits(m0, snapshot(vel.velocityGradient())), "undefined velocity name '" << in.name << "' changed the field");
    c.label("undefined name");
  } else {
    if (!ana) PBT_CHECK(sameBits(m0, snapshot(vel.velocityGradient())), "velocity gradient changed although scheme is '" << in.gradient_scheme << "'");
    s.interior([&](int i, int j, int k) {
      V3 x = pos(i, j, k), v = vel.velocity()(i, j, k);
      LD want[3] = {W * ((LD)ctr[1] - x[1]), W * ((LD)x[0] - ctr[0]), 0};
      for (int a = 0; a < 3; ++a)
        PBT_CHECK(pbt::close(v[a], want[a], 1e-14L * (fabs(ctr[0]) + fabs(ctr[1]) + fabs(x[0]) + fabs(x[1])) * (a < 2)), "velocity component " << a << " at (" << i << "," << j << "," << k << ") position (" << x << ") is " << v[a] << ", expected "
                                                                                                                         << want[a] << " for centre (" << ctr << ")");
      if (ana) {
        const M3 &m = vel.velocityGradient()(i, j, k);
        LD wm[2][2] = {{0, -W}, {W, 0}};
        for (int r = 0; r < 2; ++r)
          for (int q = 0; q < 2; ++q)
            PBT_CHECK(pbt::close(m(r, q), wm[r][q], 1e-14L), "velocity gradient (" << r << "," << q << ") at cell (" << i << "," << j << "," << k << ") is " << m(r, q) << ", expected " << wm[r][q] << " for " << s.str());
      }
    });
  }
  c.label(PBT_STR(D << "D"));
  if (ana) c.label("analytical gradient");
  if (circ && ctr[0] != ctr[1]) c.nontrivial();
}
static void prop(Ctx &c)
{
  if (c.coin())
    run<2>(c);
  else
    run<3>(c);
}
PBT_MAIN("C16", "random grids, positions, centres, times, names and gradient schemes; non-trivial: circular field with centre x != centre y", prop)
