// Compiled once per copy of the reference headers (SIDE: namespace, SIDEFN: accessor); the copy is found by include path.
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "ref_side.h"
namespace SIDE {
using namespace std;
#ifdef SIDE_OLD
#include "Hermite.h"
#include "Initializer_vortex.h"
namespace g = SIDE;
#else
#include "VariableDefinitions.h"
#include "Hermite.h"
#include "InitializeLevelSet.h"
#include "VortexVelocity.h"
#include "TimeSteppingMethods.h"
#include "Allocation.h"
#include "AdvectionPointCalcs.h"
#include "Constants.h"
namespace g = galsfunctions;
#endif
struct None {
};
static None hp1D(...);
static double (*pick(double (*f)(double *, double *, double, double, double), double))(double *, double *, double, double, double) { return f; }
static double (*pick(double (*)(double *, double *, double, double, double), None))(double *, double *, double, double, double) { return nullptr; }
static double asDouble(double v) { return v; }
static double asDouble(None) { return 0; }
static RefApi make()
{
  RefApi a = RefApi();
  a.name = SIDENAME;
  a.hp = [](double *p, double *px, double *py, double *pxy, double x, double y, double xo, double yo, double dx, double dy) { return (double)hp(p, px, py, pxy, x, y, xo, yo, dx, dy); };
  a.hermx = [](double *p, double *px, double *py, double *pxy, double x, double y, double xo, double yo, double dx, double dy) { return (double)hermx(p, px, py, pxy, x, y, xo, yo, dx, dy); };
  a.hermy = [](double *p, double *px, double *py, double *pxy, double x, double y, double xo, double yo, double dx, double dy) { return (double)hermy(p, px, py, pxy, x, y, xo, yo, dx, dy); };
  double *nd = nullptr;
  typedef decltype(hp1D(nd, nd, 1.0, 1.0, 1.0)) H1;
  a.hp1 = pick([](double *p, double *px, double x, double xo, double dx) { return asDouble(hp1D(p, px, x, xo, dx)); }, H1());
  a.u = [](double x, double y, double t, double T) { return (double)g::Velx(x, y, t, T); };
  a.v = [](double x, double y, double t, double T) { return (double)g::Vely(x, y, t, T); };
  a.ux = [](double x, double y, double t, double T) { return (double)g::gradUx(x, y, t, T); };
  a.uy = [](double x, double y, double t, double T) { return (double)g::gradUy(x, y, t, T); };
  a.vx = [](double x, double y, double t, double T) { return (double)g::gradVx(x, y, t, T); };
  a.vy = [](double x, double y, double t, double T) { return (double)g::gradVy(x, y, t, T); };
  a.init = [](double x, double y) { return (double)g::initialize(x, y); };
  a.initx = [](double x, double y) { return (double)g::derivxinit(x, y); };
  a.inity = [](double x, double y) { return (double)g::derivyinit(x, y); };
  a.initxy = [](double x, double y) { return (double)g::derivxyinit(x, y); };
#ifndef SIDE_OLD
  a.nodes = [](RV &x, RV &y, double x1, double y1, double dx, double dy, unsigned nx, unsigned ny) { g::gridnodes(x, y, x1, y1, dx, dy, nx, ny); };
  a.alloc = [](RG &p, RG &px, RG &py, RG &pxy, RV &x, RV &y, unsigned nx, unsigned ny) { g::allocate_levelset_matrices(p, px, py, pxy, x, y, nx, ny); };
  a.velocity = [](RG &u, RG &v, unsigned nx, unsigned ny, RV &x, RV &y, double t, double T) { g::allocate_levelset_velocity(u, v, nx, ny, x, y, t, T); };
  a.mixed = [](RG &px, RG &py, RG &pxy, unsigned nx, unsigned ny, double dx, double dy) { g::update_mixed_derivatives(px, py, pxy, nx, ny, dx, dy); };
  a.mixedMpi = [](RG &px, RG &py, RG &pxy, unsigned nx, unsigned ny, double dx, double dy, unsigned lo, unsigned hi) { g::update_mixed_derivatives_mpi(px, py, pxy, nx, ny, dx, dy, lo, hi); };
  a.trace = [](RV &x, RV &y, RG &xa, RG &ya, unsigned t, double dt, double T, char *s) { g::advection_point(x, y, xa, ya, t, dt, T, s); };
  a.traceMpi = [](RV &x, RV &y, RG &xa, RG &ya, unsigned t, double dt, double T, unsigned lo, unsigned hi, char *s) { g::advection_point_MPI(x, y, xa, ya, t, dt, T, lo, hi, s); };
  a.locate = [](RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, double x1, double x2, double y1, double y2) { g::find_advection_point_location(x, y, xa, ya, cx, cy, tr, x1, x2, y1, y2); };
  a.locateMpi = [](RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, double x1, double x2, double y1, double y2, unsigned lo, unsigned hi) {
    g::find_advection_point_location_MPI(x, y, xa, ya, cx, cy, tr, x1, x2, y1, y2, lo, hi);
  };
  a.update = [](RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, unsigned t, double dt, RG &tp, RG &tx, RG &ty, RG &txy, RG &p, RG &px, RG &py, RG &pxy, char *psi, char *bt, double T) {
    g::update_levelset_data(x, y, xa, ya, cx, cy, tr, t, dt, tp, tx, ty, txy, p, px, py, pxy, psi, bt, T);
  };
  a.updateMpi = [](RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, unsigned t, double dt, RG &tp, RG &tx, RG &ty, RG &txy, RG &p, RG &px, RG &py, RG &pxy, char *psi, char *bt, unsigned lo, unsigned hi,
                   double T) { g::update_levelset_data_mpi(x, y, xa, ya, cx, cy, tr, t, dt, tp, tx, ty, txy, p, px, py, pxy, psi, bt, lo, hi, T); };
  a.print = [](RG &p, RG &px, RG &py, RG &pxy, unsigned nx, unsigned ny, RV &x, RV &y, double t, double T) { g::fileprint(p, px, py, pxy, nx, ny, x, y, t, T); };
#endif
  return a;
}
}  // namespace SIDE
const RefApi &SIDEFN()
{
  static const RefApi a = SIDE::make();
  return a;
}
