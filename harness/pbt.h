// Small property-based testing engine (choice sequences, forked workers, shrinking, replay).
//
// A property is a function void prop(pbt::Ctx&).  Every random decision goes through Ctx::draw(n), which
// records a choice in [0,n).  A case is therefore fully determined by its choice sequence; shrinking edits the
// sequence (delete spans, lower values; 0 is always the simplest choice) and re-executes it in a forked child, and
// the replay file is the list of sequences.  A case fails when the property throws pbt::Fail or any other
// exception, or when the process crashes (sanitizer report, signal), terminates unexpectedly or burns more than
// CASE_CPU_S seconds of CPU time.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {
typedef long double LD;
static const int CASE_CPU_S = 40;
static const size_t MAX_CHOICES = 1 << 18;

struct Fail {
  std::string msg;
};
struct Discard {};

inline uint64_t splitmix(uint64_t &s)
{
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash64(uint64_t a, uint64_t b)
{
  uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull);
  splitmix(s);
  uint64_t t = s ^ (b << 1);
  return splitmix(t);
}

struct Slot {  // shared between parent and one worker
  volatile uint64_t case_idx;
  volatile uint64_t evaluations, nontrivial, discarded;
  volatile uint32_t state;  // 0 idle/outside a case, 1 running a case, 2 finished, 3 failed by exception
  volatile uint32_t nchoices;
  char msg[8192];
  uint64_t choices[MAX_CHOICES];
};

// Numbers that occur in the source under test (PBT_DICT: "n:17 b:0.5 ...", n for those the pinned tree does not have or has less often). They only
// make fresh draws favour these values and their neighbours; what is recorded is an ordinary choice, so replay and shrinking do not depend on them.
struct Dict {
  std::vector<double> base, novel;
  Dict()
  {
    const char *e = getenv("PBT_DICT");
    std::istringstream is(e ? e : "");
    std::string w;
    while (is >> w)
      if (w.size() > 2 && w[1] == ':') (w[0] == 'n' ? novel : base).push_back(strtod(w.c_str() + 2, nullptr));
  }
  static const Dict &get()
  {
    static Dict d;
    return d;
  }
};

struct Ctx {
  Slot *slot;
  bool replaying;
  const std::vector<uint64_t> *src;
  uint64_t rng;
  bool nontrivial_ = false;
  bool want_note_ = false;
  std::string note_;
  std::vector<std::string> labels_;

  Ctx(Slot *s, uint64_t seed) : slot(s), replaying(false), src(nullptr), rng(seed) { slot->nchoices = 0; }
  Ctx(Slot *s, const std::vector<uint64_t> *v) : slot(s), replaying(true), src(v), rng(0) { slot->nchoices = 0; }

  uint64_t draw(uint64_t n)
  {  // uniform in [0,n); n==0 means the full 64-bit range
    uint64_t v;
    uint32_t i = slot->nchoices;
    if (replaying) {
      v = i < src->size() ? (*src)[i] : 0;
      if (n && v >= n) v = n - 1;
    } else {
      v = splitmix(rng);
      if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    if (i < MAX_CHOICES) slot->choices[i] = v, slot->nchoices = i + 1;
    return v;
  }
  uint64_t put(uint64_t v)
  {  // record a choice made some other way
    uint32_t i = slot->nchoices;
    if (i < MAX_CHOICES) slot->choices[i] = v, slot->nchoices = i + 1;
    return v;
  }
  bool hint(double &d)
  {
    if (replaying) return false;
    const Dict &D = Dict::get();
    uint64_t r = splitmix(rng);
    bool nov = !D.novel.empty() && (D.base.empty() || (r >> 32) % 3);
    const std::vector<double> &v = nov ? D.novel : D.base;
    if (v.empty() || r % (nov ? 12 : 40)) return false;
    d = v[(r >> 8) % v.size()];
    return true;
  }
  double around(double d)
  {  // an integer suggested by d
    switch (splitmix(rng) % 10) {
      case 0: return floor(d) - 1;
      case 1: return floor(d) + 1;
      case 2: return floor(d) + 2;
      case 3: return 2 * floor(d);
      case 4: return 2 * floor(d) + 1;
      case 5: return ceil(sqrt(fabs(d))) + 1;
      case 6: return ceil(cbrt(fabs(d))) + 1;
      default: return floor(d);
    }
  }
  uint64_t bits() { return draw(0); }
  int integer(int lo, int hi)
  {
    double d;
    if (hi > lo && hint(d)) {
      d = around(d);
      if (d >= lo && d <= hi) return lo + (int)put((uint64_t)((long)d - lo));
    }
    return lo + (int)draw((uint64_t)(hi - lo) + 1);
  }
  // 0, or (only if the source has numbers the pinned tree lacks) now and then a size in [1,cap] suggested by one of them
  int suggested(int cap)
  {
    if (replaying) return (int)draw((uint64_t)cap + 1);
    const Dict &D = Dict::get();
    uint64_t r = splitmix(rng);
    if (D.novel.empty() || r % 10) return (int)put(0);
    double d = around(D.novel[(r >> 8) % D.novel.size()]);
    return (int)put(d >= 1 && d <= cap ? (uint64_t)d : 0);
  }
  bool coin(int num = 1, int den = 2) { return (int)draw(den) >= den - num; }  // shrinks to false
  template <class T>
  const T &pick(const std::vector<T> &v)
  {
    return v[draw(v.size())];
  }
  // weighted index
  int weighted(std::initializer_list<int> w)
  {
    int tot = 0;
    for (int x : w) tot += x;
    int r = (int)draw(tot), i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x, ++i;
    }
    return 0;
  }
  // real number in [lo,hi]: nice fractions or full-precision values; shrinks towards nice fractions near lo
  double real(double lo, double hi)
  {
    double h;
    if (hi > lo && hint(h)) {
      uint64_t r = splitmix(rng);
      double d = r % 4 == 0 ? h * (1 + ((r >> 8) % 3 - 1.0) * 1e-3) : r % 16 == 1 && h != 0 ? 1 / h : h;
      if (d >= lo && d <= hi) {
        put(4);
        memcpy(&r, &d, sizeof r);
        put(r);
        return d;
      }
    }
    switch (draw(replaying ? 5 : 4)) {
      case 0: return lo + (hi - lo) * (double)draw(17) / 16.0;
      case 1: return lo + (hi - lo) * (double)draw(101) / 100.0;
      case 4: {  // the exact value
        uint64_t r = draw(0);
        memcpy(&h, &r, sizeof h);
        return h >= lo && h <= hi ? h : lo;
      }
      default: return lo + (hi - lo) * ((double)draw(1ull << 53) * 0x1p-53);
    }
  }
  double unit() { return (double)draw(1ull << 53) * 0x1p-53; }
  // log-uniform magnitude in [10^a,10^b]; shrinks to 1 when 0 is inside
  double magnitude(double a, double b)
  {
    if (a <= 0 && b >= 0 && draw(3) == 0) return 1.0;
    double h;
    if (b > a && hint(h) && h != 0) {
      double l = (log10(fabs(h)) - a) / (b - a);
      if (l >= 0 && l < 1) return pow(10.0, a + (b - a) * ((double)put((uint64_t)(l * 0x1p53)) * 0x1p-53));
    }
    return pow(10.0, a + (b - a) * unit());
  }
  double signedReal(double scale) { return (coin() ? -1 : 1) * real(0, scale); }
  std::vector<int> permutation(int n)
  {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + draw(n - i)]);
    return p;
  }
  void label(const std::string &l) { labels_.push_back(l); }
  void nontrivial() { nontrivial_ = true; }
  bool wantNote() const { return want_note_; }
  void note(const std::string &s)
  {
    if (want_note_ && note_.size() < 4000) note_ += s;
  }
};

#define PBT_STR(expr) ([&]() { std::ostringstream os_; os_.precision(17); os_ << expr; return os_.str(); }())
#define PBT_FAIL(expr) throw pbt::Fail{PBT_STR(expr)}
#define PBT_CHECK(cond, expr) \
  do {                        \
    if (!(cond)) PBT_FAIL(expr); \
  } while (0)
#define PBT_NOTE(c, expr) \
  do {                    \
    if ((c).wantNote()) (c).note(PBT_STR(expr)); \
  } while (0)

// |got-want| <= tol; NaN never passes
inline bool close(LD got, LD want, LD tol)
{
  LD d = got - want;
  return d <= tol && -d <= tol;
}

typedef void (*PropFn)(Ctx &);

struct Result {
  bool failed = false;
  std::string msg;
  std::vector<uint64_t> choices;
};

class Runner
{
  PropFn prop_;
  std::string id_, rule_, outdir_;
  uint64_t seed_;
  bool schedule_ = false;
  Slot *slots_ = nullptr;
  int nslots_ = 0;

  static double now()
  {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
  }
  uint64_t caseSeed(uint64_t idx)
  {
    uint64_t h = hash64(seed_, 0x1234567);
    for (char ch : id_) h = hash64(h, (unsigned char)ch);
    return hash64(h, idx);
  }
  static void arm(int s)
  {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
  }
  // returns true when the case failed by exception (slot->msg set)
  bool execute(Ctx &c, bool &discarded)
  {
    Slot *s = c.slot;
    s->msg[0] = 0;
    discarded = false;
    try {
      prop_(c);
    } catch (const Discard &) {
      discarded = true;
      return false;
    } catch (const Fail &f) {
      snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
      return true;
    } catch (const std::exception &e) {
      snprintf(s->msg, sizeof s->msg, "unexpected exception: %s", e.what());
      return true;
    } catch (...) {
      snprintf(s->msg, sizeof s->msg, "unexpected exception");
      return true;
    }
    return false;
  }
  static std::string jsonEscape(const std::string &s)
  {
    std::string o;
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\')
        o += '\\', o += (char)ch;
      else if (ch < 0x20 || ch >= 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", ch);
        o += b;
      } else
        o += (char)ch;
    }
    return o;
  }

  void worker(int w, int nw, uint64_t ncases, double deadline)
  {
    Slot *s = &slots_[w];
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    bool failed = false;
    for (uint64_t idx = w; idx < ncases; idx += nw) {
      if (deadline > 0 && now() > deadline) break;
      s->case_idx = idx;
      Ctx c(s, caseSeed(idx));
      c.want_note_ = samples.size() < 3;
      s->state = 1;
      arm(CASE_CPU_S);
      bool disc;
      bool bad = execute(c, disc);
      arm(0);
      s->evaluations = s->evaluations + 1;
      if (disc) s->discarded = s->discarded + 1;
      if (!disc && c.nontrivial_) {
        s->nontrivial = s->nontrivial + 1;
        uint64_t h = s->nchoices;
        for (uint32_t i = 0; i < s->nchoices; ++i) h = hash64(h, s->choices[i]);
        distinct.insert(h);
        if (samples.size() < 3 && c.note_.size()) samples.push_back(c.note_);
      }
      for (auto &l : c.labels_) ++labels[l];
      if (bad) {
        s->state = 3;
        failed = true;
        break;
      }
      s->state = 0;
    }
    std::ostringstream fn;
    fn << outdir_ << "/stats." << w << ".json";
    FILE *f = fopen(fn.str().c_str(), "w");
    if (f) {
      fprintf(f, "{\"distinct_nontrivial\":%zu,\"labels\":{", distinct.size());
      bool first = true;
      for (auto &l : labels) fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(l.first).c_str(), (unsigned long long)l.second), first = false;
      fprintf(f, "},\"samples\":[");
      for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(samples[i]).c_str());
      fprintf(f, "]}\n");
      fclose(f);
    }
    std::ostringstream hn;
    hn << outdir_ << "/hashes." << w;
    if ((f = fopen(hn.str().c_str(), "wb"))) {
      for (uint64_t h : distinct) fwrite(&h, sizeof h, 1, f);
      fclose(f);
    }
    if (!failed) s->state = 2;
    fflush(nullptr);
    _exit(failed ? 3 : 0);
  }

  static std::string describe(int st)
  {
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGPROF)
        o << "no termination within " << CASE_CPU_S << " s of CPU time";
      else
        o << "killed by signal " << WTERMSIG(st);
    } else if (WIFEXITED(st)) {
      if (WEXITSTATUS(st) == 77)
        o << "sanitizer report (memory error or undefined behaviour)";
      else
        o << "process terminated inside the operation with exit code " << WEXITSTATUS(st);
    }
    return o.str();
  }

  std::string slurp(const std::string &fn)
  {
    std::string s;
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) return s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 6000) s.append(b, n);
    fclose(f);
    return s;
  }

  // run a list of cases in one fresh child; only the last one's outcome counts
  Result runList(const std::vector<std::vector<uint64_t>> &cases, bool quiet = true)
  {
    Slot *s = &slots_[nslots_ - 1];
    s->state = 0;
    s->nchoices = 0;
    s->msg[0] = 0;
    std::string log = outdir_ + "/child.log";
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      if (quiet) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1), dup2(fd, 2);
      }
      for (size_t i = 0; i < cases.size(); ++i) {
        Ctx c(s, &cases[i]);
        s->state = (i + 1 == cases.size()) ? 1 : 4;
        arm(CASE_CPU_S);
        bool disc;
        bool bad = execute(c, disc);
        arm(0);
        if (i + 1 == cases.size()) {
          s->state = bad ? 3 : 2;
          fflush(nullptr);
          _exit(bad ? 3 : 0);
        }
      }
      s->state = 2;
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    Result r;
    if (s->state == 3) {
      r.failed = true;
      r.msg = s->msg;
    } else if (s->state == 1) {
      r.failed = true;
      r.msg = describe(st);
      std::string l = slurp(log);
      size_t q = l.find("ERROR: AddressSanitizer");
      if (q == std::string::npos) q = l.find("WARNING: ThreadSanitizer");
      if (q == std::string::npos) q = l.find("runtime error:");
      if (q == std::string::npos) q = l.find("Assertion");
      if (q != std::string::npos) r.msg += ": " + l.substr(q, 1500);
    }
    r.choices.assign(s->choices, s->choices + s->nchoices);
    return r;
  }
  // outcomes may depend on the machine's scheduling when several threads or processes run: try again before giving up
  Result runRepeat(const std::vector<std::vector<uint64_t>> &l, int tries)
  {
    Result r;
    for (int k = 0; k < tries; ++k) {
      r = runList(l);
      if (r.failed) break;
    }
    return r;
  }
  Result run1(const std::vector<uint64_t> &v)
  {
    std::vector<std::vector<uint64_t>> l(1, v);
    return runRepeat(l, schedule_ ? 20 : 1);
  }

  static bool better(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
  {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }

  // shrink the last case of a list (prefix kept)
  std::vector<uint64_t> shrink(const std::vector<std::vector<uint64_t>> &prefix, std::vector<uint64_t> best, std::string &msg, double budget,
                               int &execs)
  {
    double end = now() + budget;
    auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
      if (now() > end) return false;
      ++execs;
      std::vector<std::vector<uint64_t>> l = prefix;
      l.push_back(cand);
      Result r = runList(l);
      if (!r.failed) return false;
      std::vector<uint64_t> act = r.choices;
      while (act.size() && act.back() == 0) act.pop_back();
      if (better(act, best)) {
        best = act;
        msg = r.msg;
        return true;
      }
      return false;
    };
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      for (size_t len : {(size_t)64, (size_t)16, (size_t)8, (size_t)4, (size_t)3, (size_t)2, (size_t)1}) {
        if (len > best.size()) continue;
        for (size_t i = 0; i + len <= best.size() && now() < end;) {
          std::vector<uint64_t> cand(best);
          cand.erase(cand.begin() + i, cand.begin() + i + len);
          if (attempt(cand))
            progress = true;
          else
            i += len > 1 ? len / 2 + (len % 2) : 1;
        }
      }
      for (size_t i = 0; i < best.size() && now() < end; ++i) {
        if (best[i] == 0) continue;
        std::vector<uint64_t> cand(best);
        cand[i] = 0;
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        if (i >= best.size()) break;
        uint64_t lo = 0, hi = best[i];  // lo fails to reproduce, hi reproduces
        for (int it = 0; it < 12 && hi - lo > 1 && now() < end && i < best.size(); ++it) {
          uint64_t mid = lo + (hi - lo) / 2;
          cand = best;
          cand[i] = mid;
          if (attempt(cand)) {
            progress = true;
            if (i >= best.size()) break;
            hi = best[i];
          } else
            lo = mid;
        }
      }
    }
    return best;
  }

 public:
  Runner(PropFn p, const std::string &id, const std::string &rule) : prop_(p), id_(id), rule_(rule), seed_(1) {}

  int main(int argc, char **argv)
  {
    std::string mode = argc > 1 ? argv[1] : "run";
    uint64_t ncases = 1000;
    int nw = 8;
    double tlimit = 0, shrink_s = 60;
    std::string replay;
    outdir_ = ".";
    for (int i = 2; i + 1 < argc; i += 2) {
      std::string a = argv[i];
      if (a == "--seed") seed_ = strtoull(argv[i + 1], 0, 10);
      if (a == "--cases") ncases = strtoull(argv[i + 1], 0, 10);
      if (a == "--workers") nw = atoi(argv[i + 1]);
      if (a == "--out") outdir_ = argv[i + 1];
      if (a == "--time") tlimit = atof(argv[i + 1]);
      if (a == "--shrink") shrink_s = atof(argv[i + 1]);
      if (a == "--schedule") schedule_ = atoi(argv[i + 1]) != 0;
      if (a == "--file") replay = argv[i + 1];
    }
    nslots_ = nw + 1;
    slots_ = (Slot *)mmap(nullptr, sizeof(Slot) * nslots_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (slots_ == MAP_FAILED) return perror("mmap"), 2;
    signal(SIGPIPE, SIG_IGN);

    if (mode == "replay") {
      std::vector<std::vector<uint64_t>> cases;
      FILE *f = fopen(replay.c_str(), "r");
      if (!f) return perror(replay.c_str()), 2;
      char *line = nullptr;
      size_t cap = 0;
      ssize_t n;
      while ((n = getline(&line, &cap, f)) > 0) {
        if (!strncmp(line, "schedule: 1", 11)) schedule_ = true;
        if (strncmp(line, "case:", 5)) continue;
        std::vector<uint64_t> v;
        char *p = line + 5, *e;
        for (;;) {
          uint64_t x = strtoull(p, &e, 10);
          if (e == p) break;
          v.push_back(x), p = e;
        }
        cases.push_back(v);
      }
      free(line);
      fclose(f);
      Result r = runRepeat(cases, schedule_ ? 20 : 1);
      printf("replay: %s%s%s\n", r.failed ? "FAILS" : "passes", r.failed ? ": " : "", r.msg.c_str());
      return r.failed ? 1 : 0;
    }

    double t0 = now();
    double deadline = tlimit > 0 ? t0 + tlimit : 0;
    std::vector<pid_t> pids(nw);
    fflush(nullptr);
    for (int w = 0; w < nw; ++w) {
      pids[w] = fork();
      if (pids[w] < 0) return perror("fork"), 2;
      if (pids[w] == 0) {
        std::ostringstream o;
        o << outdir_ << "/worker." << w << ".log";
        int fd = open(o.str().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1), dup2(fd, 2);
        worker(w, nw, ncases, deadline);
      }
    }
    int alive = nw, failw = -1, failst = 0;
    bool hardkill = false;
    while (alive > 0) {
      int st;
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0) {
        if (errno == EINTR) continue;
        break;
      }
      for (int w = 0; w < nw; ++w)
        if (pids[w] == p) {
          --alive;
          pids[w] = 0;
          bool ok = slots_[w].state == 2;
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) ok = true, hardkill = failw < 0;  // ended from outside (OOM): no verdict
          if (!ok && failw < 0) {
            failw = w, failst = st;
            for (int v = 0; v < nw; ++v)
              if (pids[v]) kill(pids[v], SIGKILL);
          }
        }
    }
    uint64_t ev = 0, nt = 0, dis = 0;
    for (int w = 0; w < nw; ++w) ev += slots_[w].evaluations, nt += slots_[w].nontrivial, dis += slots_[w].discarded;

    int rc = 0;
    std::string verdict = "pass", fmsg, rfile;
    size_t hist = 0, len = 0;
    int execs = 0;
    if (failw >= 0) {
      Slot &s = slots_[failw];
      uint64_t idx = s.case_idx;
      std::vector<uint64_t> ch(s.choices, s.choices + s.nchoices);
      fmsg = s.state == 3 ? std::string(s.msg) : describe(failst);
      std::vector<std::vector<uint64_t>> prefix;
      Result r = run1(ch);
      bool repro = r.failed;
      if (repro) fmsg = r.msg;
      if (!repro) {  // depends on earlier cases of the same process: rebuild that history
        std::vector<std::vector<uint64_t>> all;
        for (uint64_t k = failw; k < idx && all.size() < 20000; k += nw) {
          // regenerate the choices of case k by executing it in a child
          Slot *t = &slots_[nslots_ - 1];
          fflush(nullptr);
          pid_t p = fork();
          if (p == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1), dup2(fd, 2);
            arm(CASE_CPU_S);
            Ctx c(t, caseSeed(k));
            bool d;
            execute(c, d);
            _exit(0);
          }
          int st;
          waitpid(p, &st, 0);
          all.push_back(std::vector<uint64_t>(t->choices, t->choices + t->nchoices));
          if (now() - t0 > 400) break;
        }
        std::vector<std::vector<uint64_t>> l = all;
        l.push_back(ch);
        r = runList(l);
        if (r.failed) {
          repro = true;
          fmsg = r.msg;
          prefix = all;
          double end = now() + shrink_s;
          for (size_t chunk = std::max<size_t>(1, prefix.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
            for (size_t i = 0; i < prefix.size() && now() < end;) {
              std::vector<std::vector<uint64_t>> cand(prefix.begin(), prefix.begin() + i);
              size_t e = std::min(prefix.size(), i + chunk);
              cand.insert(cand.end(), prefix.begin() + e, prefix.end());
              std::vector<std::vector<uint64_t>> full = cand;
              full.push_back(ch);
              ++execs;
              if (runList(full).failed)
                prefix = cand;
              else
                i = e;
            }
            if (chunk == 1) break;
          }
        }
      }
      if (repro) {
        while (ch.size() && ch.back() == 0) ch.pop_back();
        std::vector<uint64_t> original = ch;
        ch = shrink(prefix, ch, fmsg, shrink_s, execs);
        std::vector<std::vector<uint64_t>> l = prefix;
        l.push_back(ch);
        int good = 0;
        for (int k = 0; k < 3; ++k) {
          Result q = runList(l);
          if (q.failed) ++good, fmsg = q.msg;
        }
        if (schedule_ && good < 3) {
          for (int v = 0; v < 2 && good < 3; ++v) {  // the shrunk case, then the original one
            if (v) l.back() = ch = original;
            Result q = runRepeat(l, 20);
            if (q.failed) good = 3, fmsg = q.msg;
          }
        }
        hist = prefix.size(), len = ch.size();
        if (good == 3) {
          verdict = "violation";
          rc = 1;
          rfile = outdir_ + "/replay.txt";
          FILE *f = fopen(rfile.c_str(), "w");
          std::string one = fmsg;
          for (auto &x : one)
            if (x == '\n') x = ' ';
          fprintf(f, "property: %s\nmessage: %s\nseed: %llu\n", id_.c_str(), one.c_str(), (unsigned long long)seed_);
          if (schedule_) fprintf(f, "schedule: 1\n");
          for (auto &cs : l) {
            fprintf(f, "case:");
            for (auto x : cs) fprintf(f, " %llu", (unsigned long long)x);
            fprintf(f, "\n");
          }
          fclose(f);
        } else
          verdict = "unstable", rc = 4;
      } else
        verdict = "unreproducible", rc = 4;
    } else if (hardkill)
      verdict = "killed", rc = 4;

    FILE *f = fopen((outdir_ + "/result.json").c_str(), "w");
    fprintf(f,
            "{\"verdict\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"requested\":%llu,\"workers\":%d,"
            "\"wall\":%.3f,\"message\":\"%s\",\"replay\":\"%s\",\"history\":%zu,\"choices\":%zu,\"shrink_execs\":%d,\"rule\":\"%s\"}\n",
            verdict.c_str(), (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)dis, (unsigned long long)ncases, nw,
            now() - t0, jsonEscape(fmsg).c_str(), jsonEscape(rfile).c_str(), hist, len, execs, jsonEscape(rule_).c_str());
    fclose(f);
    printf("%s: %s after %llu cases (%llu non-trivial) in %.1f s%s%s\n", id_.c_str(), verdict.c_str(), (unsigned long long)ev,
           (unsigned long long)nt, now() - t0, fmsg.size() ? ": " : "", fmsg.c_str());
    return rc;
  }
};

#define PBT_MAIN(ID, RULE, FN) \
  int main(int argc, char **argv) { return pbt::Runner(FN, ID, RULE).main(argc, argv); }
}  // namespace pbt
