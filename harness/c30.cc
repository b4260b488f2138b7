// C30: a level set keeps its eight fields (current, previous, interpolated; value, gradient, mixed derivatives) and a velocity its two fields
// apart over any history, and every accessor, const or not, refers to the same field of the same object (model-based).
#include "gals_gen.h"
enum { PHI, PSI, MIX, PHIP, PSIP, MIXP, PHII, PSII, VEL, VGRAD, NF };
static const char *nm[NF] = {"phi", "psi", "phiMixedDerivatives", "phiPrev", "psiPrev", "phiMixedDerivativesPrev", "phiInterpPrev", "psiInterpPrev", "velocity", "velocityGradient"};
template <int D>
struct Obj {
  typedef gc::Levelset<G<D>, double> L;
  typedef gc::LevelsetVelocity<G<D>, double> W;
  std::unique_ptr<L> l;
  std::unique_ptr<W> w;
  const G<D> *on;
  std::vector<double> model[NF];
  template <class F>
  void at(int f, F fn)
  {
    switch (f) {
      case PHI: return fn(l->phi());
      case PSI: return fn(l->psi());
      case MIX: return fn(l->phiMixedDerivatives());
      case PHIP: return fn(l->phiPrev());
      case PSIP: return fn(l->psiPrev());
      case MIXP: return fn(l->phiMixedDerivativesPrev());
      case PHII: return fn(l->phiInterpPrev());
      case PSII: return fn(l->psiInterpPrev());
      case VEL: return fn(w->velocity());
      default: return fn(w->velocityGradient());
    }
  }
  template <class F>
  void cat(int f, F fn) const
  {
    const L &cl = *l;
    const W &cw = *w;
    switch (f) {
      case PHI: return fn(cl.phi());
      case PSI: return fn(cl.psi());
      case MIX: return fn(cl.phiMixedDerivatives());
      case PHIP: return fn(cl.phiPrev());
      case PSIP: return fn(cl.psiPrev());
      case MIXP: return fn(cl.phiMixedDerivativesPrev());
      case PHII: return fn(cl.phiInterpPrev());
      case PSII: return fn(cl.psiInterpPrev());
      case VEL: return fn(cw.velocity());
      default: return fn(cw.velocityGradient());
    }
  }
};
// the fields of one kind (same element type), any of which can be assigned to any other
static const std::vector<int> kinds[4] = {{PHI, PHIP, PHII}, {PSI, PSIP, PSII, VEL}, {MIX, MIXP}, {VGRAD}};
static int kindOf(int f)
{
  for (int k = 0; k < 4; ++k)
    for (int q : kinds[k])
      if (q == f) return k;
  return -1;
}
struct Snap {
  std::vector<double> v;
  const void *p, *g;
  size_t n;
  template <class A>
  void operator()(const A &a)
  {
    v = snapshot(a), p = &a, g = &a.grid(), n = a.size();
  }
};
struct Assign {
  const void *to;
  template <class A, class B>
  static void set(A &, const B &)
  {
  }
  template <class A>
  static void set(A &a, const A &b)
  {
    a = b;
  }
};
struct WriteNode {
  const int *id;
  double base;
  std::vector<double> *out;
  template <class A>
  void operator()(A &a)
  {
    auto &e = a(id[0], id[1], id[2]);
    out->clear();
    for (int q = 0, n = ncomp(e); q < n; ++q) setc(e, q, base + q), out->push_back(base + q);
  }
};
template <int D>
struct AssignTo {
  Obj<D> *dst;
  int field;
  template <class A>
  struct Inner {
    const A *src;
    template <class B>
    void operator()(B &b)
    {
      Assign::set(b, *src);
    }
  };
  template <class A>
  void operator()(const A &a)
  {
    dst->at(field, Inner<A>{&a});
  }
};
template <int D>
static void go(Ctx &c)
{
  GridSpec s = genGrid(c, D, 0, c.coin(1, 4) ? 3 : 1, 8, 3, 2);
  auto g1 = makeGrid<D>(s), g2 = makeGrid<D>(s);
  std::vector<std::unique_ptr<Obj<D>>> os;
  PBT_NOTE(c, s.str() << ":");
  const int nm_ = Mixed<D>::N;
  int comps[NF] = {1, 3, nm_, 1, 3, nm_, 1, 3, 3, 9};
  auto verify = [&](const char *op) {
    std::set<const void *> seen;
    for (size_t q = 0; q < os.size(); ++q) {
      PBT_CHECK(&os[q]->l->grid() == os[q]->on && &os[q]->w->grid() == os[q]->on, "object " << q << " reports another grid after " << op);
      for (int f = 0; f < NF; ++f) {
        Snap a, b;
        os[q]->at(f, [&](const auto &x) { a.p = &x, a.g = &x.grid(), a.n = x.size(); });
        os[q]->cat(f, [&](const auto &x) { b(x); });
        PBT_CHECK(a.p == b.p, nm[f] << "() const and not refer to different fields");
        PBT_CHECK(seen.insert(a.p).second, nm[f] << " of object " << q << " is shared with another field");
        PBT_CHECK(a.g == os[q]->on && (long)a.n == s.slots(), nm[f] << " of object " << q << " is on another grid or has another size after " << op);
        PBT_CHECK(sameBits(b.v, os[q]->model[f]), "after " << op << ": " << nm[f] << " of object " << q << " is not what was last stored there, for " << s.str());
      }
    }
  };
  auto add = [&](const G<D> &g) {
    std::unique_ptr<Obj<D>> o(new Obj<D>);
    o->l.reset(new gc::Levelset<G<D>, double>(g));
    o->w.reset(new gc::LevelsetVelocity<G<D>, double>(g));
    o->on = &g;
    for (int f = 0; f < NF; ++f) o->model[f].assign(s.slots() * comps[f], 0.0);
    os.push_back(std::move(o));
  };
  add(*g1);
  verify("construction");
  int writes = 0, moves = 0;
  for (int n = c.integer(1, 20); n > 0; --n) {
    size_t q = c.draw(os.size());
    switch (c.weighted({5, 4, 2, 2, 1, 1})) {
      case 0: {
        int f = c.integer(0, NF - 1), id[3];
        for (int a = 0; a < 3; ++a) id[a] = c.integer(-s.p(a), s.n[a] - 1 + s.p(a));
        double base = genStored(c);
        auto write = [&](int i, int j, int k) {
          int at[3] = {i, j, k};
          std::vector<double> vals;
          os[q]->at(f, WriteNode{at, base, &vals});
          size_t slot = g1->index(i, j, k);
          for (size_t z = 0; z < vals.size(); ++z) os[q]->model[f][slot * vals.size() + z] = vals[z];
        };
        if (c.coin(1, 4))
          s.padded([&](int i, int j, int k) { base += 0.125, write(i, j, k); });
        else
          write(id[0], id[1], id[2]);
        ++writes;
        PBT_NOTE(c, " write " << nm[f] << " of " << q);
        verify("a write");
        break;
      }
      case 1: {  // field to field, the same object or another
        size_t r = c.draw(os.size());
        int f = c.integer(0, NF - 1);
        const std::vector<int> &k = kinds[kindOf(f)];
        int to = k[c.draw(k.size())];
        os[q]->cat(f, AssignTo<D>{os[r].get(), to});
        os[r]->model[to] = os[q]->model[f];
        if (q != r || f != to) ++moves;
        PBT_NOTE(c, " " << nm[to] << " of " << r << " = " << nm[f] << " of " << q);
        verify("an assignment");
        break;
      }
      case 2:
        if (os.size() < 3) add(c.coin() ? *g1 : *g2), verify("creating another object");
        break;
      case 3:
        if (os.size() < 3) {  // copies of whole objects
          std::unique_ptr<Obj<D>> o(new Obj<D>);
          o->l.reset(new gc::Levelset<G<D>, double>(*os[q]->l));
          o->w.reset(new gc::LevelsetVelocity<G<D>, double>(*os[q]->w));
          o->on = os[q]->on;
          for (int f = 0; f < NF; ++f) o->model[f] = os[q]->model[f];
          os.push_back(std::move(o));
          ++moves;
          PBT_NOTE(c, " copy " << q);
          verify("copying an object");
        }
        break;
      case 4:
        if (os.size() > 1) {
          os.erase(os.begin() + q);
          PBT_NOTE(c, " destroy " << q);
          verify("destroying another object");
        }
        break;
      default: {
        GridSpec n2 = s;
        genBox(c, n2);
        (c.coin() ? g1 : g2)->generate(n2.lo[0], n2.hi[0], n2.lo[1], n2.hi[1], n2.lo[2], n2.hi[2]);
        PBT_NOTE(c, " regenerate");
        verify("regenerating a grid");
      }
    }
  }
  gc::InterpolatedFields<V3> fr;
  PBT_CHECK(fr.phi_interpolated == 0 && fr.psi_interpolated[0] == 0 && fr.psi_interpolated[1] == 0 && fr.psi_interpolated[2] == 0, "fresh interpolation result is not zero");
  if (moves) c.label("assignment or copy");
  c.label(PBT_STR(D << "D"));
  if (writes && moves) c.nontrivial();
}
static void prop(Ctx &c)
{
  switch (c.draw(3)) {
    case 0: return go<1>(c);
    case 1: return go<2>(c);
    default: return go<3>(c);
  }
}
PBT_MAIN("C30", "random operation sequences (<=20) over up to 3 level sets with velocities, all ten fields compared with a model through const and non-const accessors after every operation; non-trivial: at least one write and one assignment or copy", prop)
