// Pools of live objects on which any library operation can be executed (C26, C28).
#pragma once
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "hermite_ref.h"
struct Rng {
  uint64_t s;
  uint64_t next() { return pbt::splitmix(s); }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  double u() { return (double)(next() >> 11) * 0x1p-53; }
  double sr(double m) { return m * (2 * u() - 1); }
};
typedef std::vector<double> Tr;
enum Field { PHI, PSI, MIX, PHIP, PSIP, MIXP, PHII, PSII, VEL, VGRAD, F, F2, V, X, M, GRID, NFIELD };
static const char *fieldName[] = {"phi", "psi", "mixed", "phi_prev", "psi_prev", "mixed_prev", "phi_interp", "psi_interp", "velocity",
                                  "velocity_gradient", "scalar field", "second scalar field", "vector field", "positions", "matrix field", "grid"};
static const char *opName[] = {"regenerate grid", "circle level set", "rotation velocity", "second-order gradient", "third-order gradient", "bulk Hermite",
                               "single Hermite", "linear interpolation", "semi-Lagrangian step", "Euler step", "field assignment", "text output",
                               "destroy and recreate", "write nodes", "cell lookup", "copy construction", "small vectors"};
static const int NOP = 17;

static Data rdata(Rng &r)
{
  Data d;
  d.kind = r.in(0, 4);
  d.seed = r.next();
  d.scale = pow(10, r.in(-2, 2));
  d.hot = r.in(0, 775);
  return d;
}
static GridSpec rspec(Rng &r, int dim)
{
  GridSpec s;
  s.dim = dim;
  int cap = dim == 1 ? 9 : dim == 2 ? 5 : 3;
  for (int a = 0; a < dim; ++a) s.n[a] = r.in(1, cap);
  s.pad = r.in(1, 3);
  return s;
}
static void rbox(Rng &r, GridSpec &s)
{
  for (int a = 0; a < 3; ++a) {
    s.lo[a] = r.in(0, 2) ? r.sr(2) : -1;
    s.hi[a] = s.lo[a] + (r.in(0, 2) ? 0.25 + 2 * r.u() : 2);
  }
}
struct WorldBase {
  GridSpec s;
  virtual ~WorldBase() {}
  virtual std::vector<Tr> save() const = 0;
  virtual void load(const std::vector<Tr> &) = 0;
  virtual uint32_t apply(int op, uint64_t seed, Tr &result) = 0;  // returns the set of fields the operation may change
};
template <int D>
struct World : WorldBase {
  std::shared_ptr<G<D>> g;
  std::unique_ptr<gc::Levelset<G<D>, double>> ls;
  std::unique_ptr<gc::LevelsetVelocity<G<D>, double>> vel;
  std::unique_ptr<gc::Array<G<D>, double>> f, f2;
  std::unique_ptr<gc::Array<G<D>, V3>> v, x;
  std::unique_ptr<gc::Array<G<D>, M3>> m;
  void make()
  {
    m.reset(), x.reset(), v.reset(), f2.reset(), f.reset(), vel.reset(), ls.reset(), g.reset();
    g = makeGrid<D>(s);
    fields();
  }
  void fields()
  {
    ls.reset(new gc::Levelset<G<D>, double>(*g));
    vel.reset(new gc::LevelsetVelocity<G<D>, double>(*g));
    f.reset(new gc::Array<G<D>, double>(*g)), f2.reset(new gc::Array<G<D>, double>(*g));
    v.reset(new gc::Array<G<D>, V3>(*g)), x.reset(new gc::Array<G<D>, V3>(*g)), m.reset(new gc::Array<G<D>, M3>(*g));
  }
  World(const GridSpec &sp)
  {
    s = sp;
    make();
  }
  World(const GridSpec &sp, const std::shared_ptr<G<D>> &grid)  // on somebody else's grid
  {
    s = sp;
    g = grid;
    fields();
  }
  template <class Fn>
  void each(Fn fn) const
  {
    fn(PHI, ls->phi()), fn(PSI, ls->psi()), fn(MIX, ls->phiMixedDerivatives()), fn(PHIP, ls->phiPrev()), fn(PSIP, ls->psiPrev());
    fn(MIXP, ls->phiMixedDerivativesPrev()), fn(PHII, ls->phiInterpPrev()), fn(PSII, ls->psiInterpPrev());
    fn(VEL, vel->velocity()), fn(VGRAD, vel->velocityGradient()), fn(F, *f), fn(F2, *f2), fn(V, *v), fn(X, *x), fn(M, *m);
  }
  struct Save {
    std::vector<Tr> &o;
    template <class A>
    void operator()(int id, const A &a)
    {
      o[id] = snapshot(a);
    }
  };
  struct Load {
    const std::vector<Tr> &o;
    template <class A>
    void operator()(int id, A &a)
    {
      size_t p = 0;
      for (size_t i = 0; i < a.size(); ++i) {
        auto &e = a[i];
        for (int q = 0, n = ncomp(e); q < n; ++q) setc(e, q, o[id][p++]);
      }
    }
  };
  struct Fill {
    const GridSpec &s;
    Rng &r;
    template <class A>
    void operator()(int, A &a)
    {
      fill(a, s, rdata(r));
    }
  };
  std::vector<Tr> save() const override
  {
    std::vector<Tr> o(NFIELD);
    each(Save{o});
    Tr &t = o[GRID];
    s.padded([&](int i, int j, int k) {
      V3 p = (*g)(i, j, k);
      for (int a = 0; a < 3; ++a) t.push_back(p[a]);
    });
    for (int a = 0; a < D; ++a) t.push_back(g->dX()[a]), t.push_back(g->oneOverDX()[a]);
    for (int a = 0; a < 3; ++a) t.push_back(g->numCells()[a]), t.push_back(g->getMask()[a]);
    t.push_back(g->size()), t.push_back((double)g->totalCells()), t.push_back(g->getPadding());
    return o;
  }
  void load(const std::vector<Tr> &o) override { each(Load{o}); }
  double inside(Rng &r, int a) const
  {
    return (double)(s.node(a, 0) + (-s.pad + 1e-6L + r.u() * (1 - 2e-6L) * (s.n[a] + 2 * s.pad - 1 - 2e-6L)) * s.dx(a));
  }
  V3 point(Rng &r) const
  {
    V3 p(0, 0, 0);
    for (int a = 0; a < D; ++a) p[a] = inside(r, a);
    return p;
  }
  void linear(gc::Array<G<1>, V3> &q, const gc::Array<G<1>, double> &a, gc::Array<G<1>, double> &o)
  {
    gc::Interpolate<double, G<1>, GALS::INTERPOLATION::Linear<double, G<1>>>::compute(q, a, o);
  }
  template <class A, class B, class C>
  void linear(A &, const B &, C &)
  {
  }
  void rotation(Rng &r, std::true_type)
  {
    GALS::INPUT_FIELDS::Velocity in;
    in.name = r.in(0, 5) ? "CIRCULAR" : "OTHER";
    in.gradient_scheme = r.in(0, 2) ? "ANALYTICAL" : "NONE";
    in.center = {r.sr(1), r.sr(1), r.sr(1)};
    GALS::ANALYTICAL_FIELDS::Velocity<G<D>, double>(*g, in).compute(*x, r.sr(3), *vel);
  }
  void rotation(Rng &, std::false_type) {}
  uint32_t apply(int op, uint64_t seed, Tr &t) override
  {
    Rng r{seed};
#define BIT(q) (1u << (q))
    switch (op) {
      case 0:
        rbox(r, s);
        g->generate(s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2]);
        return BIT(GRID);
      case 1: {
        GALS::INPUT_FIELDS::Levelset in;
        in.name = r.in(0, 5) ? "CIRCLE" : "OTHER";
        in.center = V3(std::vector<double>{r.sr(1), r.sr(1), r.sr(1)});
        in.radius = r.u();
        GALS::ANALYTICAL_FIELDS::Levelset<G<D>, double>(*g, in).compute(*x, *ls);
        return BIT(PHI);
      }
      case 2: rotation(r, std::integral_constant<bool, (D > 1)>()); return BIT(VEL) | BIT(VGRAD);
      case 3:
        switch (r.in(0, 2)) {
          case 0: gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(*f, *v); return BIT(V);
          case 1: gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(*v, *m); return BIT(M);
          default: gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(ls->phi(), ls->psi()); return BIT(PSI);
        }
      case 4:
        if (s.pad < 2) return 0;
        switch (r.in(0, 2)) {
          case 0: gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(*f, *v); return BIT(V);
          case 1: gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(*v, *m); return BIT(M);
          default: gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(ls->phi(), ls->psi()); return BIT(PSI);
        }
      case 5:
        s.interior([&](int i, int j, int k) { (*x)(i, j, k) = point(r); });
        gc::Interpolate<double, G<D>, Herm<D>>::compute(*x, *ls);
        return BIT(X) | BIT(PHII) | BIT(PSII);
      case 6:
        for (int q = 0; q < 3; ++q) {
          auto o = Herm<D>().interpolate(*g, point(r), *ls, r.in(0, 2) == 0);
          t.push_back(o.phi_interpolated);
          for (int a = 0; a < 3; ++a) t.push_back(o.psi_interpolated[a]);
        }
        return 0;
      case 7:
        if (D != 1) return 0;
        s.interior([&](int i, int j, int k) { (*x)(i, j, k) = point(r); });
        linear(*x, *f, *f2);
        return BIT(X) | BIT(F2);
      case 8: {
        double dt = r.in(0, 6) ? 0.95 : 0.0;
        double lim = 1;
        if (dt > 0)
          s.interior([&](int i, int j, int k) {
            for (int a = 0; a < D; ++a) {
              double u = fabs(vel->velocity()(i, j, k)[a]);
              if (u > 0) lim = std::min(lim, s.pad * (double)s.dx(a) / u);
            }
          });
        dt *= lim * (r.in(0, 1) ? 1 : -1);
        gc::Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>>>::compute(dt, *vel, *ls);
        return BIT(PHI) | BIT(PSI) | BIT(PHII) | BIT(PSII);
      }
      case 9: gc::Temporal<double, G<D>>::compute(r.sr(1), *vel, *ls); return BIT(PHI);
      case 10:
        switch (r.in(0, 6)) {
          case 0: ls->phiPrev() = ls->phi(); return BIT(PHIP);
          case 1: ls->psiPrev() = ls->psi(); return BIT(PSIP);
          case 2: ls->phiMixedDerivativesPrev() = ls->phiMixedDerivatives(); return BIT(MIXP);
          case 3: *f = ls->phi(); return BIT(F);
          case 4: vel->velocity() = *v; return BIT(VEL);
          case 5: vel->velocityGradient() = *m; return BIT(VGRAD);
          default: *f2 = *f; return BIT(F2);
        }
      case 11: {
        std::ostringstream o;
        if (r.in(0, 1))
          o << *f;
        else
          o << *v;
        for (char ch : o.str()) t.push_back(ch);
        return 0;
      }
      case 12: {
        GridSpec n = rspec(r, D);
        rbox(r, n);
        s = n;
        make();
        each(Fill{s, r});
        s.padded([&](int i, int j, int k) { (*x)(i, j, k) = (*g)(i, j, k); });
        return ~0u;
      }
      case 13:
        for (int q = 0; q < 3; ++q) {
          int id[3] = {0, 0, 0};
          for (int a = 0; a < D; ++a) id[a] = r.in(-s.pad, s.n[a] + s.pad - 1);
          (*f)(id[0], id[1], id[2]) = r.sr(3);
          (*v)(I3(id[0], id[1], id[2])) = V3(r.sr(1), r.sr(1), r.sr(1));
          ls->phiPrev()(id[0], id[1], id[2]) = r.sr(2);
        }
        return BIT(F) | BIT(V) | BIT(PHIP);
      case 14:
        for (int q = 0; q < 4; ++q) {
          auto id = g->baseNodeId(point(r));
          for (int a = 0; a < D; ++a) t.push_back(id[a]);
          // the id addresses the grid and the fields directly, the unused axes' marker included
          V3 p = (*g)(id);
          for (int a = 0; a < 3; ++a) t.push_back(p[a]);
          t.push_back((*f)(id));
        }
        return 0;
      case 15: {
        gc::Array<G<D>, double> c(*f);
        gc::Array<G<D>, V3> cv(*v);
        c(0, 0, 0) = 17, cv(0, 0, 0) = V3(1, 2, 3);
        for (double q : snapshot(c)) t.push_back(q);
        for (double q : snapshot(cv)) t.push_back(q);
        return 0;
      }
      default: {
        V3 a(r.sr(5), r.sr(5), r.sr(5)), b(1 + r.u(), 1 + r.u(), -1 - r.u());
        M3 mm;
        for (int q = 0; q < 9; ++q) mm[q] = r.sr(2);
        V3 w = mm.dot(a);
        for (const V3 &y : {a - b, a * b, a / b, a * 2.0, w}) {
          for (int q = 0; q < 3; ++q) t.push_back(y[q]);
          t.push_back(y.mag()), t.push_back(y.min()), t.push_back(a == b);
        }
        return 0;
      }
    }
  }
};
static WorldBase *makeWorld(const GridSpec &s)
{
  switch (s.dim) {
    case 1: return new World<1>(s);
    case 2: return new World<2>(s);
    default: return new World<3>(s);
  }
}
