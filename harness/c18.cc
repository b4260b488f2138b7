#include <iostream>
#include "gals/input-parser.h"
#include "yaml_gen.h"
// C18: malformed input files are rejected with an error.
typedef GALS::INPUT_FIELDS::InputFields IF;
enum Out { OK, THREW };
static Out parse(GALS::INPUT_PARSER::InputParser &p, const std::string &fn, IF &in, std::string &msg)
{
  try {
    p.parse(fn, &in);
  } catch (const std::exception &e) {
    msg = e.what();
    return THREW;
  } catch (...) {
    msg = "non-standard exception";
    return THREW;
  }
  return OK;
}
struct Path {
  std::string sec, sub, key;
  char kind;  // n number, s string, i int list, c centre list(3), v list of numbers, m map
};
static const std::vector<Path> &required()
{
  static const std::vector<Path> p = {
      {"general", "", "output_directory", 's'}, {"grid", "box", "x_min", 'n'}, {"grid", "box", "x_max", 'n'}, {"grid", "box", "y_min", 'n'}, {"grid", "box", "y_max", 'n'}, {"grid", "box", "z_min", 'n'}, {"grid", "box", "z_max", 'n'},
      {"grid", "", "box", 'm'}, {"grid", "", "cells", 'i'}, {"time", "", "start", 'n'}, {"time", "", "end", 'n'}, {"time", "", "dt", 'n'}, {"time", "", "constant_dt", 's'}, {"velocity", "", "name", 's'},
      {"velocity", "", "vector", 'v'}, {"velocity", "", "center", 'w'}, {"velocity", "", "gradient", 'm'}, {"velocity", "gradient", "scheme", 's'}, {"levelset", "", "name", 's'}, {"levelset", "", "center", 'c'},
      {"levelset", "", "radius", 'n'}, {"levelset", "", "gradient", 'm'}, {"levelset", "gradient", "scheme", 's'}};
  return p;
}
static void dropKey(Y &m, const std::string &key)
{
  for (size_t i = 0; i < m.m.size(); ++i)
    if (m.m[i].first == key) {
      m.m.erase(m.m.begin() + i);
      return;
    }
}
// one definite defect; returns its description
static std::string breakDoc(Ctx &c, Y &doc)
{
  const Path &p = required()[c.draw(required().size())];
  Y *sec = doc.get(p.sec);
  if (!sec || sec->k != Y::M) return "";
  if (c.coin(1, 16)) {  // the whole section has the wrong kind
    int k = (int)c.draw(3);
    *sec = k == 0 ? Y::num("5") : k == 1 ? Y::text("nothing here") : Y::list();
    if (k == 2) sec->l = {Y::num("1"), Y::num("2")};
    return PBT_STR("section " << p.sec << " has the wrong kind (" << k << ")");
  }
  Y *m = p.sub.empty() ? sec : sec->get(p.sub);
  if (!m || m->k != Y::M) return "";
  Y *v = m->get(p.key);
  if (!v) return "";
  std::string where = p.sec + "/" + (p.sub.empty() ? "" : p.sub + "/") + p.key;
  if (c.coin(1, 4)) {
    dropKey(*m, p.key);
    return "missing key " + where;
  }
  if (c.coin(1, 6)) {  // misspelled key
    for (auto &q : m->m)
      if (q.first == p.key) q.first = p.key + (c.coin() ? "_" : "s");
    return "misspelled key " + where;
  }
  Y lst = Y::list(), mp = Y::map();
  lst.l = {Y::num("1"), Y::num("2"), Y::num("3")};
  mp.add("a", Y::num("1"));
  static const char *const notnum[] = {"abc", "1.5x", "1,5", "--3", "1e", "0.5.5", "one", "3 4", "\xc3\xa9", "NO"};
  switch (p.kind) {
    case 'n': {
      int k = (int)c.draw(4);
      *v = k == 0 ? lst : k == 1 ? mp : Y::text(notnum[c.draw(10)]);
      return "not a number: " + where;
    }
    case 's': *v = c.coin() ? lst : mp; return "not a string: " + where;
    case 'm': {
      int k = (int)c.draw(3);
      *v = k == 0 ? Y::num("7") : k == 1 ? Y::text("flat") : lst;
      return "not a map: " + where;
    }
    case 'i':
    case 'c':
    case 'v':
    case 'w': {
      int k = (int)c.draw(p.kind == 'v' ? 3 : 5);
      if (k == 0) {
        *v = Y::num("4");
        return "scalar instead of list: " + where;
      }
      if (k == 1) {
        *v = mp;
        return "map instead of list: " + where;
      }
      if (k == 2) {
        if (v->k != Y::L || v->l.empty()) return "";
        size_t at = c.draw(v->l.size());
        int e = (int)c.draw(4);
        v->l[at] = e == 0 ? lst : e == 1 ? mp : p.kind == 'i' && e == 2 ? Y::num("2.5") : Y::text(notnum[c.draw(10)]);
        return "bad list element: " + where;
      }
      if (v->k != Y::L || v->l.empty()) return "";
      size_t keep = c.draw(3);
      if (p.kind != 'i' && c.coin(1, 4)) keep = 4 + c.draw(3);  // a centre has exactly three components
      if (v->l.size() < 3) return "";
      v->l.resize(keep, v->l[1]);
      return PBT_STR("list of " << keep << ": " << where);
    }
  }
  return "";
}
static bool sectionOk(const IF &in, const Cfg &f, std::string &why)
{
#define SAME(x, y) \
  if (!((x) == (y))) { why = #x; return false; }
  if (f.has[0]) SAME(in.m_general->output_directory, f.outdir);
  if (f.has[1]) {
    SAME(in.m_grid->x_min, f.box[0]);
    SAME(in.m_grid->x_max, f.box[1]);
    SAME(in.m_grid->y_min, f.box[2]);
    SAME(in.m_grid->y_max, f.box[3]);
    SAME(in.m_grid->z_min, f.box[4]);
    SAME(in.m_grid->z_max, f.box[5]);
    SAME(in.m_grid->nx, f.n[0]);
    SAME(in.m_grid->ny, f.n[1]);
    SAME(in.m_grid->nz, f.n[2]);
  }
  if (f.has[2]) {
    SAME(in.m_time->start, f.start);
    SAME(in.m_time->end, f.end);
    SAME(in.m_time->dt, f.dt);
    SAME(in.m_time->constant_dt, f.cdt);
  }
  if (f.has[3]) {
    SAME(in.m_velocity->name, f.vname);
    SAME(in.m_velocity->gradient_scheme, f.vscheme);
    SAME(in.m_velocity->vector, f.vvec);
    for (int i = 0; i < 3; ++i) SAME(in.m_velocity->center[i], f.vcen[i]);
  }
  if (f.has[4]) {
    SAME(in.m_levelset->name, f.lname);
    SAME(in.m_levelset->gradient_scheme, f.lscheme);
    SAME(in.m_levelset->radius, f.radius);
    for (int i = 0; i < 3; ++i) SAME(in.m_levelset->center[i], f.lcen[i]);
  }
  return true;
}
// What arbitrary bytes must do, read straight off the YAML tree: 1 must throw, 0 must parse to f, -1 unspecified.
static int reference(const std::string &text, Cfg &f)
{
  YAML::Node n;
  try {
    n = YAML::Load(text);
  } catch (...) {
    return 1;
  }
  if (!n.IsMap()) return -1;
  bool loose = false;
  const YAML::Node &r = n;
  try {
    const char *nm[] = {"general", "grid", "time", "velocity", "levelset"};
    for (int i = 0; i < 5; ++i) f.has[i] = (bool)r[nm[i]];
    if (f.has[0]) f.outdir = r["general"]["output_directory"].as<std::string>();
    if (f.has[1]) {
      const char *bx[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
      for (int i = 0; i < 6; ++i) f.box[i] = r["grid"]["box"][bx[i]].as<double>();
      auto v = r["grid"]["cells"].as<std::vector<int>>();
      if (v.size() < 3) return 1;
      for (int i = 0; i < 3; ++i) f.n[i] = v[i];
      if (v.size() > 3) loose = true;
    }
    if (f.has[2]) {
      f.start = r["time"]["start"].as<double>(), f.end = r["time"]["end"].as<double>(), f.dt = r["time"]["dt"].as<double>();
      f.cdt = r["time"]["constant_dt"].as<std::string>();
    }
    if (f.has[3]) {
      f.vname = r["velocity"]["name"].as<std::string>(), f.vscheme = r["velocity"]["gradient"]["scheme"].as<std::string>();
      f.vvec = r["velocity"]["vector"].as<std::vector<double>>();
      auto v = r["velocity"]["center"].as<std::vector<double>>();
      if (v.size() != 3) return 1;
      for (int i = 0; i < 3; ++i) f.vcen[i] = v[i];
    }
    if (f.has[4]) {
      f.lname = r["levelset"]["name"].as<std::string>(), f.lscheme = r["levelset"]["gradient"]["scheme"].as<std::string>();
      f.radius = r["levelset"]["radius"].as<double>();
      auto v = r["levelset"]["center"].as<std::vector<double>>();
      if (v.size() != 3) return 1;
      for (int i = 0; i < 3; ++i) f.lcen[i] = v[i];
    }
  } catch (...) {
    return 1;
  }
  return loose ? -1 : 0;
}
static void prop(Ctx &c)
{
  Y doc;
  Cfg f = genCfg(c, doc, 1);
  std::string text, msg;
  IF in;
  GALS::INPUT_PARSER::InputParser parser;
  std::string valid = render(doc, genStyle(c)), why0;
  auto good = [&](const char *when, bool fresh) {  // the undamaged file, through the same parser
    IF other;
    std::string fn = writeFile(valid, fresh), m;
    PBT_CHECK(parse(parser, fn, other, m) == OK, "valid file rejected " << when << " (" << m << "):\n" << valid);
    PBT_CHECK(sectionOk(other, f, why0), "field " << why0 << " differs from the file " << when << ":\n" << valid);
  };
  bool before = c.coin(1, 4), after = c.coin(1, 4);
  if (before) good("before the damaged one", true);
  int mode = c.weighted({6, 3, 2, 1});
  if (mode == 0) {  // definite defects
    shuffleDoc(c, doc, c.coin(1, 4));
    int k = 1 + (int)c.coin(1, 4), made = 0;
    std::string what;
    for (int i = 0; i < k; ++i) {
      std::string w = breakDoc(c, doc);
      if (!w.empty()) ++made, what += (what.empty() ? "" : "; ") + w;
    }
    if (!made) throw pbt::Discard();
    text = render(doc, genStyle(c));
    c.note(what + "\n" + text);
    std::string fn = writeFile(text, !before);
    Out r = parse(parser, fn, in, msg);
    unlink(fn.c_str());
    PBT_CHECK(r == THREW, "malformed file accepted (" << what << "):\n" << text);
    c.label(what.substr(0, what.find(':')).substr(0, 24));
    c.nontrivial();
  } else if (mode == 1) {  // byte noise
    shuffleDoc(c, doc, false);
    text = render(doc, genStyle(c));
    int k = 1 + (int)c.draw(4);
    static const char *const bits[] = {"[", "]", "{", "}", ":", ": ", "\n", "  ", "\t", "-", "- ", "#", "'", "\"", "&a ", "*a", "!!int ", "%", "0", "9", "e", ",", "\\", "|", ">", "?", "...", "---\n", "\xff", "\x01", "~", "null"};
    for (int i = 0; i < k && !text.empty(); ++i) {
      size_t at = c.draw(text.size());
      switch (c.draw(5)) {
        case 0: text.erase(at, 1 + c.draw(4)); break;
        case 1: text.insert(at, bits[c.draw(32)]); break;
        case 2: text[at] = (char)(1 + c.draw(126)); break;
        case 3: text.resize(at); break;
        default: {
          size_t from = c.draw(text.size());
          text.insert(at, text.substr(from, 1 + c.draw(20)));
        }
      }
    }
    c.note(text);
    Cfg w;
    int want = reference(text, w);
    std::string fn = writeFile(text, !before);
    Out r = parse(parser, fn, in, msg);
    unlink(fn.c_str());
    std::string why;
    if (want == 1) PBT_CHECK(r == THREW, "malformed file accepted:\n" << text);
    if (want == 0) {
      PBT_CHECK(r == OK, "readable file rejected (" << msg << "):\n" << text);
      PBT_CHECK(sectionOk(in, w, why), "field " << why << " differs from the file:\n" << text);
    }
    c.label(want == 1 ? "noise: malformed" : want == 0 ? "noise: readable" : "noise: unspecified");
    if (want == 1) c.nontrivial();
  } else if (mode == 2) {  // unknown extra keys
    shuffleDoc(c, doc, true);
    doc.add("extra_section", Y::map().add("cells", Y::num("3")));
    text = render(doc, genStyle(c));
    c.note(text);
    std::string fn = writeFile(text, !before), why;
    Out r = parse(parser, fn, in, msg);
    unlink(fn.c_str());
    PBT_CHECK(r == OK, "valid file with extra keys rejected (" << msg << "):\n" << text);
    PBT_CHECK(sectionOk(in, f, why), "field " << why << " differs with extra keys:\n" << text);
    c.label("extra keys");
  } else {  // unreadable file
    std::string fn = PBT_STR("does-not-exist-" << c.draw(10) << ".yaml");
    c.note("missing file " + fn);
    PBT_CHECK(parse(parser, fn, in, msg) == THREW, "missing file accepted");
    c.label("missing file");
  }
  if (after) good("after the damaged one", c.coin());
}
PBT_MAIN("C18", "definite defects (drop, misspell, retype, shorten), byte noise against a reference reading of the YAML tree, extra keys, missing files; non-trivial: the input was malformed", prop)
