#include "gals/utilities/file-utils.h"
#include "gals_gen.h"
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
// C20: file utilities against an in-memory tree.  Library calls run with the effective user "nobody", so that an
// escaped deletion could only reach this check's own scratch files.
static const uid_t NOBODY = 65534;
struct Unprivileged {
  bool on;
  Unprivileged() : on(false)
  {
    if (geteuid() != 0 || setegid(NOBODY)) return;
    if (seteuid(NOBODY)) {
      if (setegid(0)) _exit(3);
      return;
    }
    on = true;
  }
  ~Unprivileged()
  {
    if (on) {
      if (seteuid(0)) _exit(3);
      if (setegid(0)) _exit(3);
    }
  }
};
typedef std::map<std::string, std::string> Tree;  // path -> "D" or "F"+content
static void walk(const std::string &base, const std::string &rel, Tree &t)
{
  DIR *d = opendir((base + "/" + rel).c_str());
  if (!d) return;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string r = rel.empty() ? n : rel + "/" + n;
    struct stat sb;
    if (lstat((base + "/" + r).c_str(), &sb)) continue;
    if (S_ISDIR(sb.st_mode)) {
      t[r] = "D";
      walk(base, r, t);
    } else {
      std::ifstream f(base + "/" + r, std::ios::binary);
      std::stringstream o;
      o << f.rdbuf();
      t[r] = "F" + o.str();
    }
  }
  closedir(d);
}
static void rmTree(const std::string &base)
{
  Tree t;
  walk(base, "", t);
  for (auto it = t.rbegin(); it != t.rend(); ++it) {
    std::string p = base + "/" + it->first;
    if (it->second == "D")
      rmdir(p.c_str());
    else
      unlink(p.c_str());
  }
  rmdir(base.c_str());
}
static std::string show(const Tree &t)
{
  std::string r;
  for (auto &p : t) r += p.first + (p.second == "D" ? "/ " : " ");
  return "{" + r + "}";
}
static std::string parentOf(const std::string &p)
{
  size_t q = p.rfind('/');
  return q == std::string::npos ? "" : p.substr(0, q);
}
static std::string genPath(Ctx &c, const Tree &t)
{
  static const char *const nm[] = {"a", "b", "out", "x.txt", "case-1", "two words", ".hidden", "a.b~1", "\xc3\xa9t\xc3\xa9", "ab"};
  if (!t.empty() && c.coin(3, 5)) {  // an existing path, or a child of one
    auto it = t.begin();
    std::advance(it, c.draw(t.size()));
    if (c.coin()) return it->first;
    return it->first + "/" + nm[c.draw(10)];
  }
  std::string r = nm[c.draw(10)];
  int n = (int)c.draw(3);
  for (int i = 0; i < n; ++i) r += std::string("/") + nm[c.draw(10)];
  return r;
}
static void prop(Ctx &c)
{
  const char *sc = getenv("VERIF_SCRATCH");
  static int seq = 0;
  std::string base = PBT_STR((sc ? sc : "/tmp") << "/fu-" << getpid() << "-" << seq++);
  struct stat sb;
  if (stat(base.c_str(), &sb) == 0) rmTree(base);
  if (mkdir(base.c_str(), 0777)) PBT_FAIL("harness: cannot create " << base);
  if (geteuid() == 0 && chown(base.c_str(), NOBODY, NOBODY)) PBT_FAIL("harness: chown");
  chmod(base.c_str(), 0777);
  int cwd = open(".", O_RDONLY | O_DIRECTORY);
  bool relative = c.coin();
  if (relative && chdir(base.c_str())) PBT_FAIL("harness: chdir");
  std::string bystander = base + ".keep";
  Tree model;
  int n = 2 + (int)c.draw(14);
  int muts = 0;
  GridSpec gs = genGrid(c, 1, 0, 1, 4);
  auto g = makeGrid<1>(gs);
  GALS::UTILITIES::FileUtils fu, fu2;
  std::string root;
  std::string fail;
  auto full = [&](const std::string &p) { return relative ? p : base + "/" + p; };
  auto state = [&](const std::string &p) { auto it = model.find(p); return it == model.end() ? 0 : it->second == "D" ? 1 : 2; };
  auto prefixIsFile = [&](const std::string &p) {
    for (std::string q = parentOf(p); !q.empty(); q = parentOf(q))
      if (state(q) == 2) return true;
    return false;
  };
  auto removeSub = [&](const std::string &p) {
    for (auto it = model.begin(); it != model.end();)
      if (it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0)
        it = model.erase(it);
      else
        ++it;
  };
  PBT_NOTE(c, (relative ? "relative paths: " : "absolute paths: "));
  for (int t = 0; t < n && fail.empty(); ++t) {
    std::string p = genPath(c, model);
    int st = state(p);
    int op = c.weighted({4, 3, 3, 2, 2, 1});
    bool got = false, want = false, any = false;
    std::string name;
    switch (op) {
      case 0: {
        std::string arg = full(p);
        int deco = st == 2 ? 0 : c.weighted({3, 2, 1});
        if (deco == 1) arg += "/";
        if (deco == 2) {
          size_t q = arg.rfind('/');
          if (q != std::string::npos && q > 0) arg.insert(q, "/");
        }
        name = "createDirectory(" + p + (deco == 1 ? "/" : "") + ")";
        {
          Unprivileged u;
          got = fu.createDirectory(arg);
        }
        if (st == 1)
          want = true;
        else if (st == 2)
          any = true;
        else if (prefixIsFile(p))
          want = false;
        else {
          want = true;
          ++muts;
          for (std::string q = p; !q.empty(); q = parentOf(q)) model[q] = "D";
        }
        break;
      }
      case 1: {
        name = "write(" + p + ")";
        gc::Array<G<1>, double> a(*g);
        fill(a, gs, genData(c));
        std::ostringstream o;
        o << a;
        {
          Unprivileged u;
          fu.write(full(p), a);
        }
        any = true;
        std::string par = parentOf(p);
        if (st != 1 && (par.empty() || state(par) == 1)) model[p] = "F" + o.str(), ++muts;
        break;
      }
      case 2:
        name = "fileExists(" + p + ")";
        {
          Unprivileged u;
          got = fu.fileExists(full(p));
        }
        want = st != 0;
        break;
      case 3:
        if (st == 1) {  // deleting an empty directory as a file is left open; one with contents is not a file
          auto it = model.upper_bound(p + "/");
          if (it == model.end() || it->first.compare(0, p.size() + 1, p + "/")) continue;
        }
        name = "removeFile(" + p + ")";
        {
          Unprivileged u;
          got = fu.removeFile(full(p));
        }
        want = st == 2;
        if (want) removeSub(p), ++muts;
        break;
      case 4: {
        std::string arg = full(p);
        if (st == 1 && c.coin()) arg += "/";
        name = "removeDirectory(" + p + ")";
        {
          Unprivileged u;
          got = fu.removeDirectory(arg);
        }
        want = st == 1;
        if (want) removeSub(p), ++muts;
        break;
      }
      default:
        root = c.coin(1, 4) ? "" : p + (c.coin() ? "/" : "");
        name = "setRootDirectory(" + root + ")";
        fu.setRootDirectory(root);
        any = true;
    }
    PBT_NOTE(c, name << " ");
    if (!any && got != want) fail = PBT_STR(name << " returned " << got << ", expected " << want << " with tree " << show(model));
    if (fail.empty() && fu.getRootDirectory() != root) fail = PBT_STR("getRootDirectory() is '" << fu.getRootDirectory() << "', set '" << root << "'");
    if (fail.empty() && fu2.getRootDirectory() != "") fail = "another object's root directory changed";
    if (fail.empty()) {
      if (fchdir(cwd)) fail = "harness: fchdir";
      Tree real;
      walk(base, "", real);
      if (relative && chdir(base.c_str())) fail = PBT_STR(name << " removed the working directory");
      if (fail.empty() && real != model) fail = PBT_STR("after " << name << " the tree is " << show(real) << ", expected " << show(model) << (show(real) == show(model) ? " (file contents differ)" : ""));
    }
  }
  (void)bystander;
  if (fchdir(cwd)) _exit(3);
  close(cwd);
  rmTree(base);
  PBT_CHECK(fail.empty(), fail);
  if (muts >= 3) c.nontrivial();
  c.label(relative ? "relative" : "absolute");
}
PBT_MAIN("C20", "2-15 operations over generated paths in a scratch directory; non-trivial: at least three operations changed the tree", prop)
