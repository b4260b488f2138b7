// Stand-in for the third-party header "filesystem/path.h" (wjakob/filesystem, a git submodule that is absent in this
// sandbox).  Implements the subset of its interface that path/file utilities use, with the same semantics.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <stdexcept>
#include <string>
#include <vector>

namespace filesystem
{
// Deletions are confined to the scratch directory of the running check.
inline bool shim_may_delete(const std::string &p)
{
  const char *sc = getenv("VERIF_SCRATCH");
  if (!sc || !*sc) return false;
  size_t q = p.rfind('/');
  std::string dir = q == std::string::npos ? "." : q == 0 ? "/" : p.substr(0, q), name = q == std::string::npos ? p : p.substr(q + 1);
  if (name.empty() || name == "." || name == "..") return false;
  char a[PATH_MAX], b[PATH_MAX];
  if (!realpath(dir.c_str(), a) || !realpath(sc, b)) return false;
  std::string d(a), r(b);
  return r.size() > 1 && (d == r || d.compare(0, r.size() + 1, r + "/") == 0);
}
class path
{
 public:
  path() {}
  path(const char *s) : p_(s) {}
  path(const std::string &s) : p_(s) {}
  bool exists() const
  {
    struct stat sb;
    return stat(clean().c_str(), &sb) == 0;
  }
  bool is_directory() const
  {
    struct stat sb;
    return stat(clean().c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
  }
  bool is_file() const
  {
    struct stat sb;
    return stat(clean().c_str(), &sb) == 0 && S_ISREG(sb.st_mode);
  }
  bool is_absolute() const { return !p_.empty() && p_[0] == '/'; }
  bool empty() const { return p_.empty(); }
  size_t file_size() const
  {
    struct stat sb;
    if (stat(clean().c_str(), &sb) != 0) throw std::runtime_error("path::file_size(): cannot stat file");
    return (size_t)sb.st_size;
  }
  std::string str() const { return clean(); }
  path parent_path() const
  {
    std::string c = clean();
    size_t q = c.rfind('/');
    if (q == std::string::npos) return path("");
    return path(q == 0 ? std::string("/") : c.substr(0, q));
  }
  std::string filename() const
  {
    std::string c = clean();
    size_t q = c.rfind('/');
    return q == std::string::npos ? c : c.substr(q + 1);
  }
  path operator/(const path &o) const { return path(clean() + "/" + o.str()); }
  bool remove_file() const { return shim_may_delete(clean()) && std::remove(clean().c_str()) == 0; }
  bool operator==(const path &o) const { return clean() == o.clean(); }
  bool operator!=(const path &o) const { return !(*this == o); }

 private:
  std::string clean() const
  {  // collapses repeated and trailing separators, as splitting into components does
    std::string o;
    for (char c : p_) {
      if (c == '/' && !o.empty() && o.back() == '/') continue;
      o += c;
    }
    while (o.size() > 1 && o.back() == '/') o.pop_back();
    return o;
  }
  std::string p_;
};
inline bool create_directory(const path &p) { return mkdir(p.str().c_str(), 0777) == 0; }
inline bool create_directories(const path &p)
{
  if (p.is_directory()) return true;
  if (p.empty()) return true;
  path parent = p.parent_path();
  if (!parent.empty() && !parent.exists() && !create_directories(parent)) return false;
  return create_directory(p);
}
inline bool remove_directories(const path &p)
{
  if (!shim_may_delete(p.str())) return false;
  DIR *d = opendir(p.str().c_str());
  if (!d) return false;
  bool ok = true;
  std::vector<std::string> names;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  for (size_t i = 0; i < names.size(); ++i) {
    path c = p / path(names[i]);
    struct stat sb;
    if (lstat(c.str().c_str(), &sb) == 0 && S_ISDIR(sb.st_mode))
      ok = remove_directories(c) && ok;
    else
      ok = c.remove_file() && ok;
  }
  return rmdir(p.str().c_str()) == 0 && ok;
}
}  // namespace filesystem
