#include "gals/utilities/file-utils.h"
#include "gals_gen.h"
#include <fstream>
#include <unistd.h>
// C19: field text output.
template <class A>
static std::string toText(const A &a)
{
  std::ostringstream o;
  o << a;
  return o.str();
}
static void checkText(const std::string &text, const GridSpec &s, const std::vector<std::vector<double>> &vals, const char *what)
{
  size_t at = 0, row = 0;
  s.interior([&](int i, int j, int k) {
    PBT_CHECK(at < text.size(), what << " ends after " << row << " lines of " << vals.size() << " for " << s.str());
    size_t e = text.find('\n', at);
    PBT_CHECK(e != std::string::npos, what << ": line " << row << " is not terminated");
    std::string line = text.substr(at, e - at);
    at = e + 1;
    std::vector<std::string> tok;
    size_t p = 0;
    while (true) {
      size_t q = line.find('\t', p);
      tok.push_back(line.substr(p, q == std::string::npos ? q : q - p));
      if (q == std::string::npos) break;
      p = q + 1;
    }
    PBT_CHECK(tok.size() == 3 + vals[row].size(), what << ": line " << row << " '" << line << "' has " << tok.size() << " tab-separated entries, expected " << 3 + vals[row].size());
    int id[3] = {i, j, k};
    for (size_t q = 0; q < tok.size(); ++q) {
      char *end;
      double v = strtod(tok[q].c_str(), &end);
      PBT_CHECK(!tok[q].empty() && *end == 0 && !isspace((unsigned char)tok[q][0]), what << ": entry '" << tok[q] << "' of line " << row << " is not a number");
      LD want = q < 3 ? ((int)q < s.dim ? s.node((int)q, id[q]) : 0) : (LD)vals[row][q - 3];
      LD tol = 6e-6L * fabsl(want) + (q < 3 && (int)q < s.dim ? s.posTol((int)q) : 0);
      PBT_CHECK(pbt::close(v, want, tol), what << ": line " << row << " (cell " << i << "," << j << "," << k << ") entry " << q << " is " << tok[q] << ", expected " << want << " for " << s.str());
    }
    ++row;
  });
  PBT_CHECK(at == text.size(), what << ": " << text.size() - at << " extra characters after the last cell");
}
static std::string slurp(const std::string &fn)
{
  std::ifstream f(fn, std::ios::binary);
  std::stringstream o;
  o << f.rdbuf();
  return o.str();
}
template <int D>
struct FileOut {
  template <class A>
  static bool write(const std::string &fn, const A &a)
  {
    GALS::UTILITIES::FileUtils().write(fn, a);
    return true;
  }
};
template <int D, class E>
struct CanWrite {
  static const bool v = true;
};
template <>
struct CanWrite<3, double> {
  static const bool v = false;
};
template <bool B>
struct Maybe {
  template <class A>
  static bool write(const std::string &fn, const A &a)
  {
    GALS::UTILITIES::FileUtils f;
    f.write(fn, a);
    return true;
  }
};
template <>
struct Maybe<false> {
  template <class A>
  static bool write(const std::string &, const A &)
  {
    return false;
  }
};
template <int D, class E>
static void one(Ctx &c, const std::string &fn, bool &multi)
{
  GridSpec s = genGrid(c, D, 0, 3, 20, 7, 4);
  auto g = makeGrid<D>(s);
  gc::Array<G<D>, E> a(*g);
  Data d = genData(c, -6, 6);
  fill(a, s, d);
  PBT_NOTE(c, s.str() << (sizeof(E) == 8 ? " scalar" : " vector") << " data kind " << d.kind << " scale " << d.scale << "; ");
  std::vector<std::vector<double>> vals;
  s.interior([&](int i, int j, int k) {
    std::vector<double> v;
    for (int q = 0; q < ncomp(a(i, j, k)); ++q) v.push_back(getc(a(i, j, k), q));
    vals.push_back(v);
  });
  auto before = snapshot(a);
  std::string text = toText(a);
  checkText(text, s, vals, "stream output");
  if (Maybe<CanWrite<D, E>::v>::write(fn, a)) {
    std::string ft = slurp(fn);
    checkText(ft, s, vals, "file");
    PBT_CHECK(ft == text, "file content differs from stream output:\n" << ft.substr(0, 300) << "\nvs\n" << text.substr(0, 300));
    c.label("written to file");
  }
  PBT_CHECK(sameBits(before, snapshot(a)), "output modified the field");
  c.label(PBT_STR(D << "D " << (sizeof(E) == 8 ? "scalar" : "vector")));
  if (vals.size() > 1) multi = true;
}
static void prop(Ctx &c)
{
  const char *sc = getenv("VERIF_SCRATCH");
  std::string fn = PBT_STR((sc ? sc : ".") << "/field-" << getpid() << ".txt");
  int n = 1 + (int)c.draw(3);
  bool multi = false;
  for (int t = 0; t < n; ++t) switch (c.draw(6)) {
      case 0: one<1, double>(c, fn, multi); break;
      case 1: one<2, double>(c, fn, multi); break;
      case 2: one<3, double>(c, fn, multi); break;
      case 3: one<1, V3>(c, fn, multi); break;
      case 4: one<2, V3>(c, fn, multi); break;
      default: one<3, V3>(c, fn, multi); break;
    }
  unlink(fn.c_str());
  if (multi) c.nontrivial();
}
PBT_MAIN("C19", "1-3 random fields (1-3D, scalar/vector) streamed and written to the same file in turn; non-trivial: a field with more than one interior cell", prop)
