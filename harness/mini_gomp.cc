// A small OpenMP runtime on plain pthreads, so that a race detector sees every synchronisation (and nothing else).
// Threads are created per region and joined at its end, as the standard's implicit barrier requires.
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <vector>
namespace {
struct Team {
  void (*fn)(void *);
  void *data;
  unsigned n;
  pthread_barrier_t bar;
  pthread_mutex_t mu;
  // dynamic work sharing: the k-th construct of the team
  struct Share {
    long next, end, step, chunk;
    unsigned entered, claimed;
  };
  std::vector<Share *> shares;
};
struct Self {
  Team *t;
  unsigned id, share;
};
thread_local Self self = {nullptr, 0, 0};
int wanted = 1;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
unsigned long rng = 88172645463325252ul;
struct Arg {
  Team *t;
  unsigned id;
  unsigned jitter;
};
void *body(void *p)
{
  Arg *a = (Arg *)p;
  self = {a->t, a->id, 0};
  for (unsigned i = 0; i < a->jitter; ++i) sched_yield();
  a->t->fn(a->t->data);
  self = {nullptr, 0, 0};
  return nullptr;
}
Team::Share *enter(long b, long e, long s, long c)
{
  Team *t = self.t;
  pthread_mutex_lock(&t->mu);
  while (t->shares.size() <= self.share) t->shares.push_back(nullptr);
  Team::Share *&h = t->shares[self.share];
  if (!h) h = new Team::Share{b, e, s, c < 1 ? 1 : c, 0, 0};
  Team::Share *r = h;
  r->entered++;
  ++self.share;
  pthread_mutex_unlock(&t->mu);
  return r;
}
bool grab(Team::Share *h, long *b, long *e)
{
  pthread_mutex_lock(&self.t->mu);
  bool ok = h->step > 0 ? h->next < h->end : h->next > h->end;
  if (ok) {
    *b = h->next;
    long n = h->next + h->step * h->chunk;
    if (h->step > 0 ? n > h->end : n < h->end) n = h->end;
    *e = n;
    h->next = n;
  }
  pthread_mutex_unlock(&self.t->mu);
  return ok;
}
thread_local Team::Share *cur = nullptr;
Team solo;
void need()
{
  if (self.t) return;
  static bool once = false;
  if (!once) {
    solo.n = 1;
    pthread_barrier_init(&solo.bar, nullptr, 1);
    pthread_mutex_init(&solo.mu, nullptr);
    once = true;
  }
  self = {&solo, 0, (unsigned)solo.shares.size()};
}
}  // namespace
extern "C" {
void omp_set_num_threads(int n) { wanted = n < 1 ? 1 : n; }
int omp_get_max_threads() { return wanted; }
int omp_get_num_threads() { return self.t ? (int)self.t->n : 1; }
int omp_get_thread_num() { return self.t ? (int)self.id : 0; }
int omp_in_parallel() { return self.t && self.t->n > 1; }
int omp_get_num_procs() { return 8; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
  if (!n) n = (unsigned)wanted;
  if (self.t && self.t != &solo) n = 1;  // nested regions are not active by default
  Self keep = self;
  Team t;
  t.fn = fn, t.data = data, t.n = n;
  pthread_barrier_init(&t.bar, nullptr, n);
  pthread_mutex_init(&t.mu, nullptr);
  std::vector<Arg> a(n);
  std::vector<pthread_t> th(n);
  for (unsigned i = 0; i < n; ++i) {
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    a[i] = {&t, i, (unsigned)(rng % 4)};
  }
  for (unsigned i = n; i-- > 1;)
    if (pthread_create(&th[i], nullptr, body, &a[i])) {
      fprintf(stderr, "mini_gomp: no thread\n");
      _exit(80);
    }
  body(&a[0]);
  for (unsigned i = 1; i < n; ++i) pthread_join(th[i], nullptr);
  for (auto *s : t.shares) delete s;
  pthread_barrier_destroy(&t.bar);
  pthread_mutex_destroy(&t.mu);
  self = keep;
}
void GOMP_barrier()
{
  if (self.t) pthread_barrier_wait(&self.t->bar);
}
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start()
{
  need();
  Team::Share *h = enter(0, 1, 1, 1);
  long b, e;
  return grab(h, &b, &e);
}
#define DYN(NAME)                                                              \
  bool GOMP_loop_##NAME##_start(long b, long e, long s, long c, long *i, long *j) \
  {                                                                            \
    need();                                                                    \
    cur = enter(b, e, s, c);                                                   \
    return grab(cur, i, j);                                                    \
  }                                                                            \
  bool GOMP_loop_##NAME##_next(long *i, long *j) { return grab(cur, i, j); }
DYN(dynamic)
DYN(guided)
DYN(nonmonotonic_dynamic)
DYN(nonmonotonic_guided)
#undef DYN
#define RT(NAME)                                                               \
  bool GOMP_loop_##NAME##_start(long b, long e, long s, long *i, long *j)      \
  {                                                                            \
    need();                                                                    \
    cur = enter(b, e, s, 1);                                                   \
    return grab(cur, i, j);                                                    \
  }                                                                            \
  bool GOMP_loop_##NAME##_next(long *i, long *j) { return grab(cur, i, j); }
RT(runtime)
RT(maybe_nonmonotonic_runtime)
RT(nonmonotonic_runtime)
#undef RT
#define ULL(NAME)                                                              \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long b, unsigned long long e, unsigned long long s, unsigned long long c, unsigned long long *i, unsigned long long *j) \
  {                                                                            \
    need();                                                                    \
    long x, y;                                                                 \
    cur = enter((long)b, (long)e, up ? (long)s : (long)s, (long)c);            \
    bool r = grab(cur, &x, &y);                                                \
    if (r) *i = x, *j = y;                                                     \
    return r;                                                                  \
  }                                                                            \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *i, unsigned long long *j) \
  {                                                                            \
    long x, y;                                                                 \
    bool r = grab(cur, &x, &y);                                                \
    if (r) *i = x, *j = y;                                                     \
    return r;                                                                  \
  }
ULL(dynamic)
ULL(guided)
ULL(nonmonotonic_dynamic)
ULL(nonmonotonic_guided)
#undef ULL
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
struct Pl {
  void (*fn)(void *);
  void *data;
  long b, e, s, c;
};
static void plRun(void *p)
{
  Pl *q = (Pl *)p;
  cur = enter(q->b, q->e, q->s, q->c);
  q->fn(q->data);
}
#define PL(NAME)                                                               \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long b, long e, long s, long c, unsigned f) \
  {                                                                            \
    Pl q = {fn, d, b, e, s, c};                                                \
    GOMP_parallel(plRun, &q, n, f);                                            \
  }
PL(dynamic)
PL(guided)
PL(nonmonotonic_dynamic)
PL(nonmonotonic_guided)
#undef PL
}
