// Scratch directory of one simulated run
#pragma once
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <iterator>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace disk
{
inline void removeTree(const std::string& d)
{
  if (d.size() < 12 || d.find("/sim_") == std::string::npos)
    return;  // only ever below a scratch directory
  if (DIR* h = opendir(d.c_str()))
  {
    while (dirent* e = readdir(h))
    {
      std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        removeTree(p);
      else
        ::unlink(p.c_str());
    }
    closedir(h);
  }
  ::rmdir(d.c_str());
}
struct Scratch
{
  std::string dir;
  Scratch()
  {
    const char* b = std::getenv("SIM_SCRATCH");
    std::string t = std::string(b ? b : "/tmp") + "/sim_run_XXXXXX";
    if (!mkdtemp(&t[0]))
      throw std::logic_error("no scratch directory");
    dir = t;
  }
  ~Scratch() { removeTree(dir); }
};
inline bool exists(const std::string& f) { return ::access(f.c_str(), F_OK) == 0; }
inline std::string slurp(const std::string& f)
{
  std::ifstream i(f, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
inline void spill(const std::string& f, const std::string& s)
{
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o << s;
  o.close();
  if (!o)
    throw std::logic_error("cannot write scratch file " + f);
}
}  // namespace disk
