#include <dlfcn.h>

#include <iostream>
#include <sstream>

#include "pbt.h"
// C22: production build versus test build, byte for byte.
using pbt::Ctx;
typedef void (*Side)(int, int, uint64_t, int, std::vector<double> *);
static Side load(const char *env)
{
  const char *p = getenv(env);
  void *h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : nullptr;
  if (!h) {
    fprintf(stderr, "cannot load %s: %s\n", env, dlerror());
    _exit(4);
  }
  return (Side)dlsym(h, "trace_op");
}
static const char *const NAMES[] = {"grid", "gradients", "hermite", "linear", "time steps", "circle", "rotation", "vectors", "parse", "output", "files", "rejected input"};
static std::vector<double> call(Side f, int op, int dim, uint64_t seed, int size, std::string &printed)
{
  std::vector<double> r;
  std::ostringstream cap;
  std::streambuf *old = std::cout.rdbuf(cap.rdbuf()), *olde = std::cerr.rdbuf(cap.rdbuf());
  try {
    f(op, dim, seed, size, &r);
  } catch (const std::exception &e) {
    std::cout.rdbuf(old), std::cerr.rdbuf(olde);
    PBT_FAIL("valid call '" << NAMES[op] << "' threw: " << e.what());
  }
  std::cout.rdbuf(old), std::cerr.rdbuf(olde);
  printed = cap.str();
  return r;
}
static void prop(Ctx &c)
{
  static Side test = load("C22_TEST"), prod = load("C22_PROD");
  int n = 1 + (int)c.draw(4);
  size_t vals = 0;
  for (int t = 0; t < n; ++t) {
    int op = (int)c.draw(12), dim = 1 + (int)c.draw(3), size = (int)c.draw(5);
    uint64_t seed = c.bits();
    PBT_NOTE(c, NAMES[op] << " " << dim << "D size " << size << " seed " << seed << "; ");
    std::string pa, pb;
    auto a = call(test, op, dim, seed, size, pa);
    auto b = call(prod, op, dim, seed, size, pb);
    PBT_CHECK(pb.empty(), "production build prints '" << pb << "' during a valid '" << NAMES[op] << "' call");
    PBT_CHECK(pa.empty(), "test build prints '" << pa << "' during a valid '" << NAMES[op] << "' call");
    PBT_CHECK(a.size() == b.size(), "different number of results for '" << NAMES[op] << "'");
    for (size_t i = 0; i < a.size(); ++i)
      PBT_CHECK(memcmp(&a[i], &b[i], 8) == 0, "result " << i << " of '" << NAMES[op] << "' (" << dim << "D) differs: test build " << a[i] << ", production build " << b[i]);
    c.label(NAMES[op]);
    vals += a.size();
  }
  if (vals > 10) c.nontrivial();
}
PBT_MAIN("C22", "1-4 valid library calls (grid, gradients, interpolation, time steps, analytical fields, parsing, output) executed by both builds; non-trivial: more than ten result values compared", prop)
