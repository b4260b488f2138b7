// C28: objects that share nothing but read-only data can be used by several threads at once.
// Each of 2-4 threads executes its own list of library operations on its own objects (level set, velocity, fields; often of the same
// type and shape as another thread's, sometimes on one grid used by all of them) and reads from one level set, velocity and field
// nobody writes.  The results must be bitwise those of the same lists executed one after another; the whole library is compiled with the race
// detector, which judges all schedules consistent with the synchronisation seen, not only the one that ran.
#include <pthread.h>

#include <thread>

#include "worlds.h"
static const char *readName[] = {"single Hermite from shared data", "lookup on a shared grid", "text output of a shared field", "gradient of a shared field", "step under a shared velocity",
                                 "explicit step under a shared velocity", "assignment from a shared field", "copy of a shared field"};
static const int NREAD = 8;
struct Op {
  int op;
  uint64_t seed;
};
struct Plan {
  GridSpec s;
  uint64_t seed;
  bool onShared;
  std::vector<Op> ops;
};
struct Out {
  std::vector<Tr> state;
  Tr result;
  std::string error;
};
template <int D>
static void readShared(World<D> &w, const World<D> &sh, int which, uint64_t seed, Tr &t)
{
  Rng r{seed};
  const gc::Levelset<G<D>, double> &ls = *sh.ls;
  const gc::LevelsetVelocity<G<D>, double> &vel = *sh.vel;
  const gc::Array<G<D>, double> &f = *sh.f;
  const gc::Array<G<D>, V3> &v = *sh.v;
  const G<D> &g = *sh.g;
  bool same = w.g.get() == sh.g.get();
  switch (which) {
    case 0:
      for (int q = 0; q < 3; ++q) {
        auto o = Herm<D>().interpolate(g, sh.point(r), ls, r.in(0, 2) == 0);
        t.push_back(o.phi_interpolated);
        for (int a = 0; a < 3; ++a) t.push_back(o.psi_interpolated[a]);
      }
      return;
    case 1:
      for (int q = 0; q < 4; ++q) {
        auto id = g.baseNodeId(sh.point(r));
        for (int a = 0; a < D; ++a) t.push_back(id[a]), t.push_back(g(id)[a]), t.push_back(g.dX()[a] * g.oneOverDX()[a]);
        t.push_back(f(id)), t.push_back(ls.phiPrev()(id)), t.push_back((double)g.index(id) + g.numCells()[0] + g.getPadding() + g.totalCells());
      }
      return;
    case 2: {
      std::ostringstream o;
      if (r.in(0, 1))
        o << f;
      else
        o << v;
      for (char ch : o.str()) t.push_back(ch);
      return;
    }
    case 3:
      if (!same) return;
      if (sh.s.pad >= 2 && r.in(0, 1))
        gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(f, *w.v), gc::Gradient<double, G<D>, gc::ThirdOrder<double, G<D>>>::compute(v, *w.m);
      else
        gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(f, *w.v), gc::Gradient<double, G<D>, gc::SecondOrderCentral<double, G<D>>>::compute(v, *w.m);
      return;
    case 4: {
      if (!same) return;
      double lim = 1;
      sh.s.interior([&](int i, int j, int k) {
        for (int a = 0; a < D; ++a) {
          double u = fabs(vel.velocity()(i, j, k)[a]);
          if (u > 0) lim = std::min(lim, sh.s.pad * (double)sh.s.dx(a) / u);
        }
      });
      gc::Temporal<double, G<D>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G<D>>>::compute(0.95 * lim, vel, *w.ls);
      return;
    }
    case 5:
      if (same) gc::Temporal<double, G<D>>::compute(r.sr(1), vel, *w.ls);
      return;
    case 6:
      if (!same) return;
      w.ls->phiPrev() = ls.phi(), w.ls->psiPrev() = ls.psiPrev(), *w.f = f, w.vel->velocity() = vel.velocity();
      return;
    default: {
      gc::Array<G<D>, double> a(f);
      gc::Array<G<D>, V3> b(v);
      a(0, 0, 0) = 3, b(0, 0, 0)[0] = 4;
      for (double q : snapshot(a)) t.push_back(q);
      for (double q : snapshot(b)) t.push_back(q);
    }
  }
}
template <int D>
static void runPlan(const Plan &p, const World<D> *sh, Out &o)
{
  std::unique_ptr<World<D>> w(p.onShared ? new World<D>(p.s, sh->g) : new World<D>(p.s));
  Rng r{p.seed};
  w->each(typename World<D>::Fill{w->s, r});
  w->s.padded([&](int i, int j, int k) { (*w->x)(i, j, k) = (*w->g)(i, j, k); });
  for (auto &q : p.ops) {
    if (q.op >= NOP) {
      if (sh) readShared<D>(*w, *sh, q.op - NOP, q.seed, o.result);
    } else if (q.op == 0 && sh && w->g.get() == sh->g.get())
      continue;  // regenerating a grid that others are using is not concurrent reading
    else
      w->apply(q.op, q.seed, o.result);
  }
  o.state = w->save();
}
struct SharedWorlds {
  std::unique_ptr<World<1>> a;
  std::unique_ptr<World<2>> b;
  std::unique_ptr<World<3>> c;
};
static void runAny(const Plan &p, const SharedWorlds &sh, Out &o)
{
  try {
    switch (p.s.dim) {
      case 1: runPlan<1>(p, sh.a.get(), o); return;
      case 2: runPlan<2>(p, sh.b.get(), o); return;
      default: runPlan<3>(p, sh.c.get(), o);
    }
  } catch (const std::exception &e) {
    o.error = e.what();
  } catch (...) {
    o.error = "an exception";
  }
}
template <int D>
static std::vector<Tr> makeShared(std::unique_ptr<World<D>> &w, const GridSpec &s, uint64_t seed)
{
  w.reset(new World<D>(s));
  Rng r{seed};
  w->each(typename World<D>::Fill{w->s, r});
  return w->save();
}
static std::vector<Tr> save(const SharedWorlds &sh) { return sh.a ? sh.a->save() : sh.b ? sh.b->save() : sh.c->save(); }
struct Job {
  const Plan *p;
  const SharedWorlds *sh;
  Out *o;
  pthread_barrier_t *b;
  int delay;
};
static void *threadMain(void *q)
{
  Job *j = (Job *)q;
  pthread_barrier_wait(j->b);
  for (int i = 0; i < j->delay; ++i) sched_yield();
  runAny(*j->p, *j->sh, *j->o);
  return nullptr;
}
static void prop(Ctx &c)
{
  int nt = c.integer(2, 4);
  int sdim = c.integer(1, 3);
  bool oneKind = c.coin(2, 3);  // all threads on objects of the same type
  uint64_t pool[2] = {c.bits(), c.bits()};
  bool recur = c.coin();
  bool focused = c.coin();
  int focus[2] = {c.integer(0, NOP + NREAD - 1), c.integer(0, NOP + NREAD - 1)};
  GridSpec ss;
  uint64_t shseed = c.bits();
  {
    Rng r{shseed};
    ss = rspec(r, sdim);
    rbox(r, ss);
  }
  std::vector<Plan> plans(nt);
  std::set<int> used;
  bool twice = false;
  for (auto &p : plans) {
    int dim = oneKind ? sdim : c.integer(1, 3);
    p.seed = recur && c.coin() ? pool[c.draw(2)] : c.bits();
    Rng r{p.seed};
    p.s = rspec(r, dim);
    rbox(r, p.s);
    p.onShared = dim == sdim && c.coin();
    if (p.onShared) p.s = ss;
    std::set<int> mine;
    for (int n = c.integer(1, 6); n > 0; --n) {
      Op o;
      o.op = focused ? focus[c.draw(2)] : c.integer(0, NOP + NREAD - 1);
      o.seed = recur && c.coin() ? pool[c.draw(2)] : c.bits();
      p.ops.push_back(o);
      mine.insert(o.op * 4 + dim);
      c.label(o.op < NOP ? opName[o.op] : readName[o.op - NOP]);
    }
    for (int m : mine)
      if (!used.insert(m).second) twice = true;
    PBT_NOTE(c, p.s.dim << "D" << (p.onShared ? " shared grid" : "") << ", " << p.ops.size() << " operations; ");
  }
  SharedWorlds sh;
  std::vector<Tr> shared = sdim == 1 ? makeShared<1>(sh.a, ss, shseed) : sdim == 2 ? makeShared<2>(sh.b, ss, shseed) : makeShared<3>(sh.c, ss, shseed);
  bool before = c.coin();  // which goes first: one after another, or all at once
  std::vector<Out> seq(nt), par(nt);
  auto sequential = [&] {
    for (int i = 0; i < nt; ++i) runAny(plans[i], sh, seq[i]);
  };
  if (before) sequential();
  pthread_barrier_t b;
  pthread_barrier_init(&b, nullptr, nt);
  std::vector<pthread_t> th(nt);
  std::vector<Job> jobs(nt);
  for (int i = 0; i < nt; ++i) {
    jobs[i] = Job{&plans[i], &sh, &par[i], &b, (int)c.draw(4)};
    if (pthread_create(&th[i], nullptr, threadMain, &jobs[i])) _exit(98);
  }
  for (auto &t : th) pthread_join(t, nullptr);
  pthread_barrier_destroy(&b);
  if (!before) sequential();
  auto now = save(sh);
  for (int q = 0; q < NFIELD; ++q) PBT_CHECK(sameBits(now[q], shared[q]), "the " << fieldName[q] << " that was only read has changed");
  for (int i = 0; i < nt; ++i) {
    PBT_CHECK(par[i].error == seq[i].error, "thread " << i << " ended with '" << par[i].error << "', alone with '" << seq[i].error << "'");
    PBT_CHECK(sameBits(par[i].result, seq[i].result), "thread " << i << " on " << plans[i].s.str() << " returned something else than when run alone");
    for (int q = 0; q < NFIELD && !par[i].state.empty(); ++q)
      PBT_CHECK(sameBits(par[i].state[q], seq[i].state[q]), "thread " << i << " on " << plans[i].s.str() << " left a different " << fieldName[q] << " than when run alone");
  }
  if (twice) c.nontrivial();
}
PBT_MAIN("C28", "two or more threads executed the same kind of operation on the same type of object", prop)
