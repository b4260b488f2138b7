// Generated configurations and their textual renderings.
#pragma once
#include <stdio.h>
#include <unistd.h>

#include <cmath>
#include <fstream>

#include "pbt.h"
using pbt::Ctx;
struct Y {  // document tree
  enum K { S, M, L } k = S;
  std::string s;      // scalar text (numbers: literal; strings: value)
  bool str = false;   // string value (quoted when rendered unless plain-safe)
  std::vector<std::pair<std::string, Y>> m;
  std::vector<Y> l;
  static Y num(const std::string &t) { Y y; y.s = t; return y; }
  static Y text(const std::string &t) { Y y; y.s = t; y.str = true; return y; }
  static Y map() { Y y; y.k = M; return y; }
  static Y list() { Y y; y.k = L; return y; }
  Y &add(const std::string &key, const Y &v) { m.push_back({key, v}); return *this; }
  Y *get(const std::string &key)
  {
    for (auto &p : m)
      if (p.first == key) return &p.second;
    return nullptr;
  }
};
struct Cfg {
  bool has[5] = {false, false, false, false, false};  // general grid time velocity levelset
  std::string outdir, vname, vscheme, lname, lscheme, cdt;
  double box[6] = {0}, start = 0, end = 0, dt = 0, vcen[3] = {0}, lcen[3] = {0}, radius = 0;
  std::vector<double> vvec;
  int n[3] = {0};
};
inline bool plainSafe(const std::string &s)
{
  if (s.empty() || !isalpha((unsigned char)s[0])) return false;
  for (char ch : s)
    if (!isalnum((unsigned char)ch) && !strchr("_/.-", ch)) return false;
  static const char *const bad[] = {"null", "Null", "NULL", "true", "false"};
  for (auto b : bad)
    if (s == b) return false;
  return true;
}
inline std::string genString(Ctx &c, std::initializer_list<const char *> common)
{
  int k = c.weighted({4, 2, 2});
  if (k == 0) return *(common.begin() + c.draw(common.size()));
  static const char *const alpha = k == 1 ? "" : "";
  (void)alpha;
  const char *cs = k == 1 ? "abcXYZ019_-./" : "ab Z0:#'\"\\,[]{}&*!|>%@`~-_.=?$/";
  std::string r;
  int n = 1 + (int)c.draw(12);
  size_t L = strlen(cs);
  for (int i = 0; i < n; ++i) r += cs[c.draw(L)];
  return r;
}
// literal of a number; v receives the value that literal denotes
inline std::string genNumber(Ctx &c, double &v)
{
  char b[64];
  switch (c.weighted({3, 3, 2, 2, 1})) {
    case 0: snprintf(b, sizeof b, c.coin(1, 6) ? "%+d" : "%d", c.integer(-20, 20)); break;
    case 1: snprintf(b, sizeof b, "%.17g", c.signedReal(10)); break;
    case 2: snprintf(b, sizeof b, "%.1f", c.integer(-99, 99) / 10.0); break;
    case 3: snprintf(b, sizeof b, c.coin() ? "%.6e" : "%.3E", (c.coin() ? -1 : 1) * (c.coin(1, 6) ? c.magnitude(-290, 290) : c.magnitude(-12, 12))); break;
    default:
      if (c.coin(1, 4)) {
        int k = (int)c.draw(3);
        v = k == 1 ? -HUGE_VAL : HUGE_VAL;
        return k == 0 ? ".inf" : k == 1 ? "-.inf" : "+.Inf";
      }
      snprintf(b, sizeof b, "%d.", c.integer(-9, 9));
      break;
  }
  v = strtod(b, nullptr);
  return b;
}
inline Cfg genCfg(Ctx &c, Y &doc, int forceAll = 0, bool anyVec = true)
{
  Cfg f;
  doc = Y::map();
  bool any = false;
  for (int i = 0; i < 5; ++i) any |= f.has[i] = forceAll || c.coin(4, 5);
  if (!any) f.has[c.draw(5)] = true;
  if (f.has[0]) {
    f.outdir = genString(c, {"project-1/case-1", "out", "a/b/c", "results_2"});
    doc.add("general", Y::map().add("output_directory", Y::text(f.outdir)));
  }
  auto nlist = [&](double *v, int n) {
    Y l = Y::list();
    for (int i = 0; i < n; ++i) l.l.push_back(Y::num(genNumber(c, v[i])));
    return l;
  };
  if (f.has[1]) {
    static const char *const nm[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
    Y box = Y::map(), cells = Y::list();
    for (int i = 0; i < 6; ++i) box.add(nm[i], Y::num(genNumber(c, f.box[i])));
    for (int i = 0; i < 3; ++i) {
      f.n[i] = c.coin() ? c.integer(1, 20) : c.coin(4, 5) ? c.integer(1, 100000) : 2147483647 - (int)c.draw(1000);
      char b[32];
      int k = (int)c.draw(12);
      snprintf(b, sizeof b, k == 1 ? "+%d" : k == 2 ? "0x%x" : k == 3 ? "0x%X" : "%d", f.n[i]);
      cells.l.push_back(Y::num(b));
    }
    doc.add("grid", Y::map().add("box", box).add("cells", cells));
  }
  if (f.has[2]) {
    f.cdt = genString(c, {"NO", "YES", "no"});
    Y t = Y::map();
    t.add("start", Y::num(genNumber(c, f.start))).add("end", Y::num(genNumber(c, f.end))).add("dt", Y::num(genNumber(c, f.dt)));
    t.add("constant_dt", Y::text(f.cdt));
    doc.add("time", t);
  }
  if (f.has[3]) {
    f.vname = genString(c, {"CIRCULAR", "UNIFORM", "circular"});
    f.vscheme = genString(c, {"ANALYTICAL", "NUMERICAL"});
    double v[6];
    int nv = anyVec && c.coin(1, 4) ? (int)c.draw(6) : 3;
    Y y = Y::map();
    y.add("name", Y::text(f.vname)).add("vector", nlist(v, nv)).add("center", nlist(f.vcen, 3));
    f.vvec.assign(v, v + nv);
    y.add("gradient", Y::map().add("scheme", Y::text(f.vscheme)));
    doc.add("velocity", y);
  }
  if (f.has[4]) {
    f.lname = genString(c, {"CIRCLE", "SPHERE"});
    f.lscheme = genString(c, {"CENTRAL", "THIRD_ORDER"});
    Y y = Y::map();
    y.add("name", Y::text(f.lname)).add("center", nlist(f.lcen, 3)).add("radius", Y::num(genNumber(c, f.radius)));
    y.add("gradient", Y::map().add("scheme", Y::text(f.lscheme)));
    doc.add("levelset", y);
  }
  return f;
}
inline void shuffleDoc(Ctx &c, Y &y, bool extras, int depth = 0)
{
  if (y.k != Y::M) return;
  for (auto &p : y.m) shuffleDoc(c, p.second, extras, depth + 1);
  if (c.coin(1, 2))
    for (size_t i = y.m.size(); i > 1; --i) std::swap(y.m[i - 1], y.m[c.draw(i)]);
  if (extras && c.coin(1, 4)) {
    static const char *const ex[] = {"zz_extra", "notes", "Center", "x_mid", "radius2", "GRID", "padding"};
    Y v = c.coin() ? Y::num("42") : c.coin() ? Y::text("some text") : Y::list();
    y.m.insert(y.m.begin() + c.draw(y.m.size() + 1), {ex[c.draw(7)], v});
  }
}
struct Style {
  uint64_t seed;
  bool fancy;
  int indent;
  uint64_t next() { return pbt::splitmix(seed); }
};
inline std::string quoteScalar(const Y &y, Style &st)
{
  uint64_t r = st.fancy ? st.next() : 0;
  if (!y.str) return r % 11 == 7 ? "\"" + y.s + "\"" : y.s;
  if (plainSafe(y.s) && r % 3 == 0) return y.s;
  if (r % 2) {
    std::string o = "'";
    for (char ch : y.s) o += ch == '\'' ? std::string("''") : std::string(1, ch);
    return o + "'";
  }
  std::string o = "\"";
  for (char ch : y.s) o += ch == '"' || ch == '\\' ? std::string("\\") + ch : std::string(1, ch);
  return o + "\"";
}
inline std::string flow(const Y &y, Style &st)
{
  if (y.k == Y::S) return quoteScalar(y, st);
  bool sp = !st.fancy || st.next() % 3;
  std::string o = y.k == Y::M ? "{" : "[";
  bool first = true;
  if (y.k == Y::M)
    for (auto &p : y.m) o += std::string(first ? "" : ", ") + p.first + ": " + flow(p.second, st), first = false;
  else
    for (auto &e : y.l) o += std::string(first ? "" : sp ? ", " : ",") + flow(e, st), first = false;
  return o + (y.k == Y::M ? "}" : "]");
}
inline void block(const Y &y, Style &st, int ind, std::string &o)
{
  auto eol = [&]() {
    if (st.fancy && st.next() % 5 == 0) o += "   # comment: [x, y] {a: b} \"q\"";
    o += "\n";
    if (st.fancy && st.next() % 9 == 0) o += st.next() % 2 ? "\n" : "# a full line, grid: {cells: [1,2,3]}\n";
  };
  std::string pad(ind, ' ');
  if (y.k == Y::M)
    for (auto &p : y.m) {
      uint64_t r = st.fancy ? st.next() : 1;
      o += pad + (r % 7 == 0 ? "\"" + p.first + "\"" : p.first) + ":";
      const Y &v = p.second;
      bool empty = v.k == Y::M ? v.m.empty() : v.k == Y::L ? v.l.empty() : false;
      bool fl = v.k == Y::S || empty || (v.k == Y::L ? (r >> 8) % 4 != 0 : (r >> 8) % 4 == 0 && st.fancy);
      if (fl) {
        o += std::string(1 + (r >> 16) % (st.fancy ? 6 : 1), ' ') + flow(v, st);
        eol();
      } else {
        eol();
        block(v, st, ind + st.indent, o);
      }
    }
  else
    for (auto &e : y.l) {
      o += pad + "- " + flow(e, st);
      eol();
    }
}
inline std::string render(const Y &doc, Style st)
{
  std::string o;
  if (st.fancy && st.next() % 4 == 0) o += "# header comment\n";
  if (st.fancy && st.next() % 5 == 0) o += "---\n";
  if (st.fancy && st.next() % 12 == 0 && doc.k == Y::M && !doc.m.empty())
    o += flow(doc, st) + "\n";
  else
    block(doc, st, 0, o);
  if (st.fancy && st.next() % 8 == 0 && !o.empty() && o.back() == '\n') o.pop_back();
  if (st.fancy && st.next() % 12 == 0) {  // line ends of other systems
    std::string r;
    for (char ch : o) r += ch == '\n' ? std::string("\r\n") : std::string(1, ch);
    o = r;
  }
  if (st.fancy && st.next() % 24 == 0) o = "\xef\xbb\xbf" + o;  // byte order mark
  return o;
}
inline Style genStyle(Ctx &c)
{
  Style st;
  st.seed = c.bits();
  st.fancy = c.coin(3, 4);
  st.indent = 1 + (int)c.draw(4);
  return st;
}
// fresh false: the same path as the file written before it, with other contents
inline std::string writeFile(const std::string &text, bool fresh = true, const char *tag = "in")
{
  static int seq = 0;
  if (!fresh) --seq;
  const char *sc = getenv("VERIF_SCRATCH");
  std::string fn = PBT_STR((sc ? sc : ".") << "/" << tag << "-" << getpid() << "-" << ((seq++ + 8) % 8) << ".yaml");
  std::ofstream o(fn, std::ios::binary | std::ios::trunc);
  o << text;
  return fn;
}
