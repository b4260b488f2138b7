// C26: results depend on their own inputs only.
// A pool of live "worlds" (grid, level set, velocity, loose fields; dimensions mixed) goes through a random interleaving of
// library operations.  After every operation all other worlds, and the fields of the same world the operation has no business
// with, must be bit-identical to before.  A sample of the operations is then re-executed on objects rebuilt from the
// recorded before-state, in processes forked from a helper that never executed library code; results must be bitwise equal.
// Everything runs under ASan + UBSan.
#include "worlds.h"

// ---- plain-data exchange with the helper process
struct Record {
  GridSpec s;
  int op;
  uint64_t seed;
  std::vector<Tr> before, after;
  Tr result;
};
static const size_t SHM = 64u << 20;
static char *shm;
static int toZ = -1, fromZ = -1;
struct Buf {
  char *p;
  template <class T>
  void put(const T &x)
  {
    memcpy(p, &x, sizeof x), p += sizeof x;
  }
  template <class T>
  void get(T &x)
  {
    memcpy(&x, p, sizeof x), p += sizeof x;
  }
  void put(const Tr &t)
  {
    put((uint64_t)t.size());
    if (t.size()) memcpy(p, t.data(), 8 * t.size()), p += 8 * t.size();
  }
  void get(Tr &t)
  {
    uint64_t n;
    get(n);
    t.resize(n);
    if (n) memcpy(t.data(), p, 8 * n), p += 8 * n;
  }
};
// child of the helper: rebuild, execute in the given order, write results
static void reexecute()
{
  Buf b{shm};
  int n;
  b.get(n);
  std::vector<Record> rs(n);
  for (auto &r : rs) {
    b.get(r.s), b.get(r.op), b.get(r.seed);
    r.before.resize(NFIELD);
    for (auto &t : r.before) b.get(t);
  }
  std::vector<std::unique_ptr<WorldBase>> keep;
  for (auto &r : rs) {
    keep.emplace_back(makeWorld(r.s));
    keep.back()->load(r.before);
    keep.back()->apply(r.op, r.seed, r.result);
    r.after = keep.back()->save();
  }
  Buf o{shm + SHM / 2};
  for (auto &r : rs) {
    o.put(r.result);
    for (auto &t : r.after) o.put(t);
  }
}
static void helper(int in, int out)
{
  char ch;
  for (;;) {
    ssize_t k = read(in, &ch, 1);
    if (k < 0 && errno == EINTR) continue;
    if (k != 1) _exit(0);
    pid_t p = fork();
    if (p == 0) {
      struct itimerval it;
      memset(&it, 0, sizeof it);
      it.it_value.tv_sec = pbt::CASE_CPU_S;
      setitimer(ITIMER_PROF, &it, nullptr);
      try {
        reexecute();
      } catch (...) {
        _exit(9);
      }
      _exit(0);
    }
    int st = -1;
    if (p > 0)
      while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    if (write(out, &st, sizeof st) != sizeof st) _exit(0);
  }
}
static void startHelper()
{
  static pid_t owner = 0;
  if (owner == getpid()) return;
  owner = getpid();
  if (toZ >= 0) close(toZ), close(fromZ);
  if (shm) munmap(shm, SHM);
  shm = (char *)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  int a[2], b[2];
  if (shm == MAP_FAILED || pipe(a) || pipe(b)) _exit(98);
  pid_t p = fork();
  if (p < 0) _exit(98);
  if (p == 0) {
    close(a[1]), close(b[0]);
    helper(a[0], b[1]);
  }
  close(a[0]), close(b[1]);
  toZ = a[1], fromZ = b[0];
}
static void freshCheck(const std::vector<const Record *> &rs)
{
  Buf b{shm};
  b.put((int)rs.size());
  size_t need = 64;
  for (auto r : rs)
    for (auto &t : r->before) need += 16 + 8 * t.size();
  if (need > SHM / 2 - (1 << 20)) return;
  for (auto r : rs) {
    b.put(r->s), b.put(r->op), b.put(r->seed);
    for (auto &t : r->before) b.put(t);
  }
  char ch = 1;
  int st = -1;
  if (write(toZ, &ch, 1) != 1) _exit(98);
  ssize_t k;
  while ((k = read(fromZ, &st, sizeof st)) < 0 && errno == EINTR)
    ;
  if (k != sizeof st) _exit(98);
  PBT_CHECK(st == 0, "re-executing '" << opName[rs[0]->op] << "' in a fresh process ended with status " << st);
  Buf o{shm + SHM / 2};
  for (auto r : rs) {
    Tr res, t;
    o.get(res);
    PBT_CHECK(sameBits(res, r->result), "'" << opName[r->op] << "' on " << r->s.str() << " returns something else in a fresh process");
    for (int q = 0; q < NFIELD; ++q) {
      o.get(t);
      PBT_CHECK(sameBits(t, r->after[q]), "'" << opName[r->op] << "' on " << r->s.str() << " leaves a different " << fieldName[q] << " than in a fresh process");
    }
  }
}
static void prop(Ctx &c)
{
  startHelper();
  int nw = c.integer(2, 4);
  // recurring arguments: the same box, points, parameters on other objects or again later
  uint64_t pool[3];
  for (auto &p : pool) p = c.bits();
  bool recur = c.coin();
  int focus[3];  // sometimes only a few kinds of operation
  bool focused = recur && c.coin();
  for (auto &f : focus) f = c.integer(0, NOP - 1);
  int onlyDim = c.coin(1, 3) ? c.integer(1, 3) : 0;
  std::vector<std::unique_ptr<WorldBase>> w(nw);
  std::vector<std::vector<Tr>> snap(nw);
  for (int i = 0; i < nw; ++i) {
    int dim = onlyDim ? onlyDim : c.integer(1, 3);
    uint64_t sd = recur && c.coin() ? pool[c.draw(3)] : c.bits();
    Rng r{sd};
    GridSpec s = rspec(r, dim);
    rbox(r, s);
    if (i > 0 && c.coin(1, 4) && w[i - 1]->s.dim == dim) s = w[i - 1]->s;  // twins: same shape, different data
    w[i].reset(makeWorld(s));
    Tr t;
    snap[i] = w[i]->save();
    for (int q = 0; q < NFIELD - 1; ++q)
      for (double v : snap[i][q]) PBT_CHECK(v == 0, "fresh " << fieldName[q] << " of " << s.str() << " holds " << v);
    if (c.coin(7, 8)) w[i]->apply(12, sd, t);
    for (int z = 0; z < i; ++z) {
      auto now = w[z]->save();
      for (int q = 0; q < NFIELD; ++q) PBT_CHECK(sameBits(now[q], snap[z][q]), "creating objects changed " << fieldName[q] << " of another object");
    }
    snap[i] = w[i]->save();
  }
  int nops = c.integer(1, 14);
  std::vector<Record> rec;
  bool mixed = false;
  std::set<int> kinds;
  for (int n = 0; n < nops; ++n) {
    int i = c.integer(0, nw - 1);
    Record r;
    r.op = focused ? focus[c.draw(3)] : c.integer(0, NOP - 1);
    r.seed = recur && c.coin(3, 4) ? pool[c.draw(3)] : c.bits();
    r.s = w[i]->s;
    r.before = snap[i];
    uint32_t mask = w[i]->apply(r.op, r.seed, r.result);
    r.after = w[i]->save();
    kinds.insert(r.op);
    for (int q = 0; q < NFIELD; ++q)
      if (!((mask >> q) & 1))
        PBT_CHECK(sameBits(r.after[q], r.before[q]), "'" << opName[r.op] << "' on " << r.s.str() << " changed the " << fieldName[q] << ", which it was not given to change");
    for (int z = 0; z < nw; ++z)
      if (z != i) {
        auto now = w[z]->save();
        for (int q = 0; q < NFIELD; ++q)
          PBT_CHECK(sameBits(now[q], snap[z][q]), "'" << opName[r.op] << "' on a " << r.s.str() << " object changed the " << fieldName[q] << " of another object (" << w[z]->s.str() << ")");
        if (w[z]->s.dim != w[i]->s.dim) mixed = true;
      }
    snap[i] = r.after;
    c.label(opName[r.op]);
    PBT_NOTE(c, opName[r.op] << " on #" << i << " (" << r.s.dim << "D); ");
    rec.push_back(std::move(r));
  }
  // all operations in a shuffled order in one fresh process, then a few of them alone
  std::vector<int> perm = c.permutation((int)rec.size());
  std::vector<const Record *> all;
  for (int q : perm) all.push_back(&rec[q]);
  freshCheck(all);
  for (int q = 0, k = c.integer(0, 2); q < k; ++q) freshCheck({&rec[c.draw(rec.size())]});
  if (kinds.size() >= 2 && (mixed || recur)) c.nontrivial();
}
PBT_MAIN("C26", "at least two kinds of operation executed while objects of different dimensions were alive, or with recurring arguments", prop)
