// Rectangular node grids for the reference solver.
#pragma once
#include "hermite_ref.h"
#include "ref_side.h"
struct Dom {
  double x1, x2, y1, y2, dx, dy;
  int nx, ny;
  RV x, y;
};
inline Dom genDom(Ctx &c, const RefApi &a, int cap = 40)
{
  Dom d;
  d.nx = 2 + c.integer(0, c.coin(1, 8) ? cap : 9), d.ny = 2 + c.integer(0, c.coin(1, 8) ? cap : 9);
  if (int v = c.suggested(300)) (c.coin() ? d.nx : d.ny) = std::max(2, v), (d.nx == std::max(2, v) ? d.ny : d.nx) = 2 + (int)c.draw(6);
  d.x1 = c.coin() ? 0 : c.signedReal(2), d.y1 = c.coin() ? 0 : c.signedReal(2);
  d.x2 = d.x1 + (c.coin() ? 1 : c.real(0.2, 3)), d.y2 = d.y1 + (c.coin() ? 1 : c.real(0.2, 3));
  d.dx = (d.x2 - d.x1) / (d.nx - 1), d.dy = (d.y2 - d.y1) / (d.ny - 1);
  a.nodes(d.x, d.y, d.x1, d.y1, d.dx, d.dy, d.nx, d.ny);
  PBT_NOTE(c, a.name << " " << d.nx << "x" << d.ny << " nodes, [" << d.x1 << "," << d.x2 << "]x[" << d.y1 << "," << d.y2 << "]; ");
  PBT_CHECK((int)d.x.size() == d.nx && (int)d.y.size() == d.ny, a.name << " gridnodes sizes");
  LD tx = (4 + d.nx) * EPS * (fabsl((LD)d.x1) + fabsl((LD)d.x2)), ty = (4 + d.ny) * EPS * (fabsl((LD)d.y1) + fabsl((LD)d.y2));
  for (int i = 0; i < d.nx; ++i) PBT_CHECK(pbt::close(d.x[i], d.x1 + (LD)i * ((LD)d.x2 - d.x1) / (d.nx - 1), tx), a.name << " x node " << i << " is " << d.x[i]);
  for (int i = 0; i < d.ny; ++i) PBT_CHECK(pbt::close(d.y[i], d.y1 + (LD)i * ((LD)d.y2 - d.y1) / (d.ny - 1), ty), a.name << " y node " << i << " is " << d.y[i]);
  return d;
}
