#include <iostream>
#include "gals/input-parser.h"
#include "gals/input-parser/general.h"
#include "yaml_gen.h"
// C17: generated configurations are read back value for value.
struct Model {
  Cfg f;
  void apply(const Cfg &g)
  {
    if (g.has[0]) f.outdir = g.outdir;
    if (g.has[1]) {
      for (int i = 0; i < 6; ++i) f.box[i] = g.box[i];
      for (int i = 0; i < 3; ++i) f.n[i] = g.n[i];
    }
    if (g.has[2]) f.start = g.start, f.end = g.end, f.dt = g.dt, f.cdt = g.cdt;
    if (g.has[3]) {
      f.vname = g.vname, f.vscheme = g.vscheme, f.vvec = g.vvec;
      for (int i = 0; i < 3; ++i) f.vcen[i] = g.vcen[i];
    }
    if (g.has[4]) {
      f.lname = g.lname, f.lscheme = g.lscheme, f.radius = g.radius;
      for (int i = 0; i < 3; ++i) f.lcen[i] = g.lcen[i];
    }
  }
};
static void preset(GALS::INPUT_FIELDS::InputFields &in, Model &m)
{
  m.f.outdir = in.m_general->output_directory = "before";
  double b[6] = {101, 102, 103, 104, 105, 106};
  for (int i = 0; i < 6; ++i) m.f.box[i] = b[i];
  in.m_grid->x_min = 101, in.m_grid->x_max = 102, in.m_grid->y_min = 103, in.m_grid->y_max = 104, in.m_grid->z_min = 105, in.m_grid->z_max = 106;
  in.m_grid->nx = m.f.n[0] = 201, in.m_grid->ny = m.f.n[1] = 202, in.m_grid->nz = m.f.n[2] = 203;
  in.m_time->start = m.f.start = 301, in.m_time->end = m.f.end = 302, in.m_time->dt = m.f.dt = 303, in.m_time->constant_dt = m.f.cdt = "before-cdt";
  in.m_velocity->name = m.f.vname = "before-v", in.m_velocity->gradient_scheme = m.f.vscheme = "before-vs";
  in.m_velocity->vector = m.f.vvec = {401, 402};
  in.m_velocity->center = {411, 412, 413};
  in.m_levelset->name = m.f.lname = "before-l", in.m_levelset->gradient_scheme = m.f.lscheme = "before-ls", in.m_levelset->radius = m.f.radius = 501;
  in.m_levelset->center = GALS::CPU::Vec3<double>(511, 512, 513);
  for (int i = 0; i < 3; ++i) m.f.vcen[i] = 411 + i, m.f.lcen[i] = 511 + i;
}
#define EQ(what, got, want) PBT_CHECK((got) == (want), what << " is '" << got << "', the file says '" << want << "'\n" << text)
static void compare(const GALS::INPUT_FIELDS::InputFields &in, const Cfg &f, const std::string &text)
{
  EQ("output_directory", in.m_general->output_directory, f.outdir);
  EQ("x_min", in.m_grid->x_min, f.box[0]);
  EQ("x_max", in.m_grid->x_max, f.box[1]);
  EQ("y_min", in.m_grid->y_min, f.box[2]);
  EQ("y_max", in.m_grid->y_max, f.box[3]);
  EQ("z_min", in.m_grid->z_min, f.box[4]);
  EQ("z_max", in.m_grid->z_max, f.box[5]);
  EQ("nx", in.m_grid->nx, f.n[0]);
  EQ("ny", in.m_grid->ny, f.n[1]);
  EQ("nz", in.m_grid->nz, f.n[2]);
  EQ("start", in.m_time->start, f.start);
  EQ("end", in.m_time->end, f.end);
  EQ("dt", in.m_time->dt, f.dt);
  EQ("constant_dt", in.m_time->constant_dt, f.cdt);
  EQ("velocity name", in.m_velocity->name, f.vname);
  EQ("velocity scheme", in.m_velocity->gradient_scheme, f.vscheme);
  PBT_CHECK(in.m_velocity->vector == f.vvec, "velocity vector differs\n" << text);
  PBT_CHECK(in.m_velocity->center.size() == 3, "velocity centre has " << in.m_velocity->center.size() << " components\n" << text);
  for (int i = 0; i < 3; ++i) EQ("velocity centre " << i, in.m_velocity->center[i], f.vcen[i]);
  EQ("levelset name", in.m_levelset->name, f.lname);
  EQ("levelset scheme", in.m_levelset->gradient_scheme, f.lscheme);
  EQ("radius", in.m_levelset->radius, f.radius);
  for (int i = 0; i < 3; ++i) EQ("levelset centre " << i, in.m_levelset->center[i], f.lcen[i]);
}
static void prop(Ctx &c)
{
  int nobj = 1 + (int)c.coin(1, 4), nfiles = 1 + (int)c.draw(3);
  GALS::INPUT_FIELDS::InputFields in[2];
  Model m[2];
  for (int i = 0; i < 2; ++i) preset(in[i], m[i]);
  GALS::INPUT_PARSER::InputParser shared;
  bool partial = false, full = false;
  for (int t = 0; t < nfiles; ++t) {
    Y doc;
    Cfg f = genCfg(c, doc);
    shuffleDoc(c, doc, c.coin(1, 3));
    std::string text = render(doc, genStyle(c));
    std::string fn = writeFile(text, c.coin());
    int o = nobj == 2 ? (int)c.draw(2) : 0;
    bool fresh = c.coin(1, 3);
    c.note(PBT_STR("object " << o << " file:\n" << text << "\n"));
    try {
      if (fresh) {
        GALS::INPUT_PARSER::InputParser p;
        p.parse(fn, &in[o]);
      } else
        shared.parse(fn, &in[o]);
    } catch (const std::exception &e) {
      PBT_FAIL("valid configuration rejected: " << e.what() << "\n" << text);
    }
    m[o].apply(f);
    for (int i = 0; i < 2; ++i) compare(in[i], m[i].f, text);
    if (c.coin()) unlink(fn.c_str());
    int n = 0;
    for (bool b : f.has) n += b;
    if (n < 5) partial = true;
    if (n >= 3) full = true;
  }
  if (partial) c.label("some section absent");
  if (nfiles > 1) c.label("several files");
  if (nobj > 1) c.label("two targets");
  if (full) c.nontrivial();
}
PBT_MAIN("C17", "1-3 rendered files per case (section/key order, styles, comments, quoting, notations), 1-2 target objects; non-trivial: some file has at least three sections", prop)
