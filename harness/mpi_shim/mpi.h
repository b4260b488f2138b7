// Message layer stand-in: ranks are processes joined by socket pairs (descriptor GM_FD of each rank), matching by source
// and tag as the standard prescribes.  Misuse the standard forbids (type or size mismatch, truncation, bad rank, use before
// MPI_Init) ends the process with status 78.  GM_SYNC=1 makes standard sends synchronous (no buffering is guaranteed by the
// standard); GM_DELAY holds microsecond delays injected before successive calls.
#pragma once
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

#include <list>
#include <vector>
typedef int MPI_Datatype;
typedef int MPI_Comm;
typedef int MPI_Op;
struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR, bytes_, type_;
};
struct GmReq_ {
  bool recv, done;
  void *buf;
  int count, type, peer, tag;
  MPI_Status st;
};
typedef GmReq_ *MPI_Request;
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
enum { MPI_SUCCESS = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -2, MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_CHAR = 0x101, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT = 0x201, MPI_UNSIGNED_SHORT, MPI_INT = 0x401, MPI_UNSIGNED, MPI_FLOAT, MPI_LONG = 0x801, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_DOUBLE };
static inline int gm_size_(int t) { return t >> 8; }
struct GmState_ {
  bool on = false, fin = false;
  int rank = 0, size = 1, fd = -1;
  bool sync = false;
  std::vector<int> delay;
  size_t next = 0;
  struct Msg {
    int src, tag, type, count;
    bool ack;
    std::vector<char> data;
  };
  std::list<Msg> inbox;
};
inline GmState_ &gm_()
{
  static GmState_ s;
  return s;
}
static inline void gm_die_(const char *what)
{
  fprintf(stderr, "MPI misuse on rank %d: %s\n", gm_().rank, what);
  fflush(nullptr);
  _exit(78);
}
static inline void gm_enter_(bool need = true)
{
  GmState_ &s = gm_();
  if (need && (!s.on || s.fin)) gm_die_("call outside MPI_Init..MPI_Finalize");
  if (s.next < s.delay.size()) {
    int d = s.delay[s.next++];
    if (d > 0) usleep(d);
  }
}
static inline void gm_io_(bool out, void *p, size_t n)
{
  char *c = (char *)p;
  while (n) {
    ssize_t k = out ? send(gm_().fd, c, n, MSG_NOSIGNAL) : recv(gm_().fd, c, n, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) gm_die_(out ? "peer is gone (send)" : "peer is gone (receive)");
    c += k, n -= k;
  }
}
static inline int MPI_Init(int *, char ***)
{
  GmState_ &s = gm_();
  if (s.on) gm_die_("MPI_Init twice");
  s.on = true;
  if (const char *e = getenv("GM_RANK")) s.rank = atoi(e), s.size = 2, s.fd = atoi(getenv("GM_FD"));
  if (const char *e = getenv("GM_SYNC")) s.sync = atoi(e);
  if (const char *e = getenv("GM_DELAY"))
    while (*e) {
      char *q;
      s.delay.push_back((int)strtol(e, &q, 10));
      e = *q ? q + 1 : q;
    }
  gm_enter_();
  return MPI_SUCCESS;
}
static inline int MPI_Init_thread(int *a, char ***b, int want, int *got) { return *got = want, MPI_Init(a, b); }
static inline int MPI_Initialized(int *f) { return *f = gm_().on, MPI_SUCCESS; }
static inline int MPI_Finalize()
{
  gm_enter_();
  gm_().fin = true;
  return MPI_SUCCESS;
}
static inline int MPI_Abort(MPI_Comm, int c)
{
  fprintf(stderr, "MPI_Abort(%d)\n", c);
  _exit(79);
}
static inline int MPI_Comm_rank(MPI_Comm, int *r) { return gm_enter_(), *r = gm_().rank, MPI_SUCCESS; }
static inline int MPI_Comm_size(MPI_Comm, int *r) { return gm_enter_(), *r = gm_().size, MPI_SUCCESS; }
static inline double MPI_Wtime()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static inline void gm_peer_(int p)
{
  if (p < 0 || p >= gm_().size || p == gm_().rank) gm_die_("bad peer rank");
}
struct GmHead_ {
  int kind, tag, type, count, ack;
};
static inline void gm_pump_()  // read one message into the inbox (acknowledgements are handled by the caller)
{
  GmState_ &s = gm_();
  GmHead_ h;
  gm_io_(false, &h, sizeof h);
  if (h.kind == 2) {
    s.inbox.push_back({1 - s.rank, -77, 0, 0, false, {}});
    return;
  }
  GmState_::Msg m{1 - s.rank, h.tag, h.type, h.count, h.ack != 0, std::vector<char>((size_t)h.count * gm_size_(h.type))};
  if (!m.data.empty()) gm_io_(false, m.data.data(), m.data.size());
  s.inbox.push_back(std::move(m));
}
static inline int gm_send_(const void *b, int n, int type, int peer, int tag, bool sync)
{
  gm_peer_(peer);
  if (n < 0 || tag < 0) gm_die_("bad count or tag");
  if (gm_size_(type) < 1) gm_die_("bad datatype");
  GmHead_ h = {1, tag, type, n, sync};
  std::vector<char> copy((const char *)b, (const char *)b + (size_t)n * gm_size_(type));
  gm_io_(true, &h, sizeof h);
  if (!copy.empty()) gm_io_(true, copy.data(), copy.size());
  if (sync)
    for (;;) {
      for (auto it = gm_().inbox.begin(); it != gm_().inbox.end(); ++it)
        if (it->tag == -77) {
          gm_().inbox.erase(it);
          return MPI_SUCCESS;
        }
      gm_pump_();
    }
  return MPI_SUCCESS;
}
static inline int gm_recv_(void *b, int n, int type, int peer, int tag, MPI_Status *st)
{
  if (peer != MPI_ANY_SOURCE) gm_peer_(peer);
  for (;;) {
    for (auto it = gm_().inbox.begin(); it != gm_().inbox.end(); ++it)
      if (it->tag != -77 && (tag == MPI_ANY_TAG || tag == it->tag)) {
        if (it->type != type && it->type != MPI_BYTE && type != MPI_BYTE) gm_die_("datatype mismatch between send and receive");
        if (it->data.size() > (size_t)n * gm_size_(type)) gm_die_("message longer than the receive buffer");
        if (!it->data.empty()) memcpy(b, it->data.data(), it->data.size());
        if (st) st->MPI_SOURCE = it->src, st->MPI_TAG = it->tag, st->MPI_ERROR = 0, st->bytes_ = (int)it->data.size(), st->type_ = it->type;
        bool ack = it->ack;
        gm_().inbox.erase(it);
        if (ack) {
          GmHead_ h = {2, 0, 0, 0, 0};
          gm_io_(true, &h, sizeof h);
        }
        return MPI_SUCCESS;
      }
    gm_pump_();
  }
}
static inline int MPI_Send(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm) { return gm_enter_(), gm_send_(b, n, t, p, tag, gm_().sync); }
static inline int MPI_Ssend(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm) { return gm_enter_(), gm_send_(b, n, t, p, tag, true); }
static inline int MPI_Recv(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm, MPI_Status *st) { return gm_enter_(), gm_recv_(b, n, t, p, tag, st); }
static inline int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { return *n = st->bytes_ / gm_size_(t), MPI_SUCCESS; }
static inline int MPI_Isend(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm, MPI_Request *r)
{
  gm_enter_();
  *r = new GmReq_{false, true, nullptr, 0, 0, 0, 0, {}};
  return gm_send_(b, n, t, p, tag, false);
}
static inline int MPI_Irecv(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm, MPI_Request *r) { return gm_enter_(), *r = new GmReq_{true, false, b, n, t, p, tag, {}}, MPI_SUCCESS; }
static inline int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
  gm_enter_();
  if (!*r) return MPI_SUCCESS;
  if ((*r)->recv) gm_recv_((*r)->buf, (*r)->count, (*r)->type, (*r)->peer, (*r)->tag, st);
  delete *r;
  *r = nullptr;
  return MPI_SUCCESS;
}
static inline int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st)
{
  for (int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : nullptr);
  return MPI_SUCCESS;
}
static inline int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int sp, int stag, void *rb, int rn, MPI_Datatype rt, int rp, int rtag, MPI_Comm, MPI_Status *st)
{
  gm_enter_();
  gm_send_(sb, sn, stp, sp, stag, false);
  return gm_recv_(rb, rn, rt, rp, rtag, st);
}
static inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm)
{
  gm_enter_();
  if (gm_().size == 1) return MPI_SUCCESS;
  return root == gm_().rank ? gm_send_(b, n, t, 1 - root, 1 << 28, false) : gm_recv_(b, n, t, root, 1 << 28, nullptr);
}
static inline int MPI_Barrier(MPI_Comm)
{
  gm_enter_();
  if (gm_().size == 1) return MPI_SUCCESS;
  char c = 0;
  gm_send_(&c, 1, MPI_CHAR, 1 - gm_().rank, (1 << 28) + 1, false);
  return gm_recv_(&c, 1, MPI_CHAR, 1 - gm_().rank, (1 << 28) + 1, nullptr);
}
