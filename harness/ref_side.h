// Uniform view of one copy of the reference solver's headers.
#pragma once
#include <string>
#include <vector>
typedef std::vector<double> RV;
typedef std::vector<RV> RG;
typedef std::vector<std::vector<unsigned int>> RI;
struct RefApi {
  const char *name;
  double (*hp)(double *phi, double *px, double *py, double *pxy, double x, double y, double xo, double yo, double dx, double dy);
  double (*hermx)(double *phi, double *px, double *py, double *pxy, double x, double y, double xo, double yo, double dx, double dy);
  double (*hermy)(double *phi, double *px, double *py, double *pxy, double x, double y, double xo, double yo, double dx, double dy);
  double (*hp1)(double *phi, double *px, double x, double xo, double dx);  // null if the copy has none
  double (*u)(double x, double y, double t, double T);
  double (*v)(double x, double y, double t, double T);
  double (*ux)(double x, double y, double t, double T);
  double (*uy)(double x, double y, double t, double T);
  double (*vx)(double x, double y, double t, double T);
  double (*vy)(double x, double y, double t, double T);
  double (*init)(double x, double y);
  double (*initx)(double x, double y);
  double (*inity)(double x, double y);
  double (*initxy)(double x, double y);
  void (*nodes)(RV &x, RV &y, double xlim1, double ylim1, double dx, double dy, unsigned nx, unsigned ny);
  void (*alloc)(RG &phi, RG &px, RG &py, RG &pxy, RV &x, RV &y, unsigned nx, unsigned ny);
  void (*velocity)(RG &u, RG &v, unsigned nx, unsigned ny, RV &x, RV &y, double time, double T);
  void (*mixed)(RG &px, RG &py, RG &pxy, unsigned nx, unsigned ny, double dx, double dy);
  void (*mixedMpi)(RG &px, RG &py, RG &pxy, unsigned nx, unsigned ny, double dx, double dy, unsigned lo, unsigned hi);
  void (*trace)(RV &x, RV &y, RG &xa, RG &ya, unsigned t, double dt, double T, char *scheme);
  void (*traceMpi)(RV &x, RV &y, RG &xa, RG &ya, unsigned t, double dt, double T, unsigned lo, unsigned hi, char *scheme);
  void (*locate)(RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, double x1, double x2, double y1, double y2);
  void (*locateMpi)(RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, double x1, double x2, double y1, double y2, unsigned lo, unsigned hi);
  void (*update)(RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, unsigned t, double dt, RG &tphi, RG &tpx, RG &tpy, RG &tpxy, RG &phi, RG &px, RG &py, RG &pxy, char *psi, char *bt, double T);
  void (*updateMpi)(RV &x, RV &y, RG &xa, RG &ya, RI &cx, RI &cy, RI &tr, unsigned t, double dt, RG &tphi, RG &tpx, RG &tpy, RG &tpxy, RG &phi, RG &px, RG &py, RG &pxy, char *psi, char *bt, unsigned lo, unsigned hi, double T);
  void (*print)(RG &phi, RG &px, RG &py, RG &pxy, unsigned nx, unsigned ny, RV &x, RV &y, double time, double T);
};
const RefApi &sideRef();
const RefApi &sideSerial();
const RefApi &sideOld();  // OldSerialCode: point functions only, no grid functions
