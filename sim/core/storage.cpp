#include "storage.h"
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
using sim::DiskFault;
bool armed = false, inside = false;
std::string root;
std::vector<DiskFault> faults;
std::vector<std::string> blocked;
sim::DiskLog dlog;
int stuck = 0;       // errno of a persistent failure
struct Stream
{
  std::string path, buf;
};
std::map<FILE*, Stream> streams;

template <class F>
F real(F& slot, const char* name)
{
  if (!slot)
    slot = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  return slot;
}
FILE* (*r_fopen)(const char*, const char*);
FILE* (*r_fopen64)(const char*, const char*);
int (*r_fclose)(FILE*);
int (*r_fflush)(FILE*);
size_t (*r_fwrite)(const void*, size_t, size_t, FILE*);
ssize_t (*r_write)(int, const void*, size_t);
ssize_t (*r_writev)(int, const struct iovec*, int);
int (*r_mkdir)(const char*, mode_t);
int (*r_rename)(const char*, const char*);
int (*r_unlink)(const char*);
int (*r_remove)(const char*);
int (*r_rmdir)(const char*);
int (*r_open)(const char*, int, ...);
int (*r_open64)(const char*, int, ...);
int (*r_fsync)(int);
int (*r_truncate)(const char*, off_t);

// the full path, without "." and doubled slashes
std::string full(const char* p)
{
  std::string s = p, o;
  char cwd[2048];
  if (s.empty() || s[0] != '/')
    s = std::string(getcwd(cwd, sizeof cwd) ? cwd : "") + "/" + s;
  for (std::size_t i = 0; i < s.size();)
  {
    while (i < s.size() && s[i] == '/')
      ++i;
    std::size_t j = s.find('/', i);
    if (j == std::string::npos)
      j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..")
      o.erase(std::min(o.size(), o.rfind('/')));
    else if (!c.empty() && c != ".")
      o += "/" + c;
    i = j;
  }
  return o;
}
bool below(const char* p) { return armed && !inside && p && full(p).compare(0, root.size(), root) == 0; }
std::string fdPath(int fd)
{
  char l[64], b[1024];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  return n > 0 ? std::string(b, n) : std::string();
}
struct In
{
  In() { inside = true; }
  ~In() { inside = false; }
};
void note(const char* op, const std::string& p, const char* what)
{
  if (dlog.text.size() < 4000)
    dlog.text += std::string(op) + " " + (p.size() > root.size() ? p.substr(root.size()) : p) + (*what ? std::string(" [") + what + "]" : "") + "; ";
}
[[noreturn]] void die() { _exit(77); }
// what happens to operation number dlog.ops; returns 0 or an errno. sort 'w': takes space
int step(const char* op, const std::string& p, DiskFault* partial = nullptr)
{
  long k = dlog.ops++;
  for (auto& f : faults)
    if (f.at == k)
    {
      if (partial)
      {
        *partial = f;
        if (f.crash || !f.err)
          return f.crash ? -1 : 0;
      }
      if (f.crash)
        die();
      if (!f.err)
        continue;  // short writes only
      if (f.stays)
        stuck = f.err;
      ++dlog.hard;
      note(op, p, strerror(f.err));
      return f.err;
    }
  if (stuck)
  {
    ++dlog.hard;
    note(op, p, strerror(stuck));
    return stuck;
  }
  note(op, p, "");
  return 0;
}
// one write to the disk; returns bytes taken or -1
ssize_t put(int fd, const std::string& p, const char* b, size_t n)
{
  DiskFault f;
  f.at = -1;
  int e = step("write", p, &f);
  if (f.at >= 0 && (f.crash || e || !f.err))
  {
    size_t m = std::min(n, (size_t)(n * f.part));
    if (!f.crash && !f.err)
    {
      if (m == 0)
        m = 1;
      if (m >= n)
        return r_write(fd, b, n);
      ++dlog.soft;
      note("write", p, "short");
      return r_write(fd, b, m);
    }
    for (size_t done = 0; done < m;)
    {
      ssize_t k = r_write(fd, b + done, m - done);
      if (k <= 0)
        break;
      done += k;
    }
    if (f.crash)
      die();
  }
  if (e)
  {
    errno = e;
    return -1;
  }
  return r_write(fd, b, n);
}
bool flushStream(FILE* s, Stream& t)
{
  while (!t.buf.empty())
  {
    ssize_t n = put(fileno(s), t.path, t.buf.data(), t.buf.size());
    if (n < 0)
    {
      t.buf.clear();
      return false;
    }
    t.buf.erase(0, n);
  }
  return true;
}
void resolve()
{
  real(r_fopen, "fopen"), real(r_fopen64, "fopen64"), real(r_fclose, "fclose"), real(r_fflush, "fflush"), real(r_fwrite, "fwrite");
  real(r_write, "write"), real(r_writev, "writev"), real(r_mkdir, "mkdir"), real(r_rename, "rename"), real(r_unlink, "unlink");
  real(r_remove, "remove"), real(r_rmdir, "rmdir"), real(r_open, "open"), real(r_open64, "open64"), real(r_fsync, "fsync"), real(r_truncate, "truncate");
}
FILE* openStream(FILE* (*f)(const char*, const char*), const char* p, const char* m)
{
  if (!below(p))
    return f(p, m);
  In in;
  bool w = strpbrk(m, "wa+") != nullptr;
  if (!w)
  {
    for (auto& b : blocked)
      if (full(b.c_str()) == full(p))
      {
        ++dlog.hard;
        note("read", p, "cannot be opened");
        errno = EIO;
        return nullptr;
      }
    return f(p, m);
  }
  if (int e = step("open", p))
  {
    errno = e;
    return nullptr;
  }
  FILE* s = f(p, m);
  if (s)
    streams[s].path = p;
  return s;
}
}  // namespace

namespace sim
{
void Storage::arm(const std::string& dir, const std::vector<DiskFault>& f)
{
  resolve();
  root = dir;
  faults = f;
  dlog = DiskLog();
  stuck = 0;
  streams.clear();
  blocked.clear();
  armed = true;
}
DiskLog Storage::disarm()
{
  armed = false;
  return dlog;
}
void Storage::unreadable(const std::vector<std::string>& f) { blocked = f; }
}  // namespace sim

#pragma GCC visibility push(default)
extern "C" {
FILE* fopen(const char* p, const char* m)
{
  real(r_fopen, "fopen");
  return openStream(r_fopen, p, m);
}
FILE* fopen64(const char* p, const char* m)
{
  real(r_fopen64, "fopen64");
  return openStream(r_fopen64, p, m);
}
int fclose(FILE* s)
{
  real(r_fclose, "fclose");
  if (!armed || inside)
    return r_fclose(s);
  auto i = streams.find(s);
  if (i == streams.end())
    return r_fclose(s);
  In in;
  bool ok = flushStream(s, i->second);
  int e = errno;
  streams.erase(i);
  int r = r_fclose(s);
  if (!ok)
  {
    errno = e;
    return EOF;
  }
  return r;
}
int fflush(FILE* s)
{
  real(r_fflush, "fflush");
  if (armed && !inside && s)
  {
    auto i = streams.find(s);
    if (i != streams.end())
    {
      In in;
      return flushStream(s, i->second) ? 0 : EOF;
    }
  }
  return r_fflush(s);
}
size_t fwrite(const void* b, size_t z, size_t n, FILE* s)
{
  real(r_fwrite, "fwrite");
  if (!armed || inside)
    return r_fwrite(b, z, n, s);
  auto i = streams.find(s);
  if (i == streams.end())
    return r_fwrite(b, z, n, s);
  In in;
  Stream& t = i->second;
  t.buf.append(static_cast<const char*>(b), z * n);
  if (t.buf.size() >= 4096 && !flushStream(s, t))
    return 0;
  return n;
}
ssize_t write(int fd, const void* b, size_t n)
{
  real(r_write, "write");
  if (!armed || inside || fd < 3)
    return r_write(fd, b, n);
  In in;
  std::string p = fdPath(fd);
  if (p.compare(0, root.size(), root) != 0)
    return r_write(fd, b, n);
  return put(fd, p, static_cast<const char*>(b), n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  real(r_writev, "writev");
  if (!armed || inside || fd < 3)
    return r_writev(fd, v, c);
  In in;
  std::string p = fdPath(fd);
  if (p.compare(0, root.size(), root) != 0)
    return r_writev(fd, v, c);
  std::string all;
  for (int i = 0; i < c; ++i)
    all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return put(fd, p, all.data(), all.size());
}
int mkdir(const char* p, mode_t m)
{
  real(r_mkdir, "mkdir");
  if (!below(p))
    return r_mkdir(p, m);
  In in;
  struct stat st;
  if (stat(p, &st) == 0)
  {
    errno = EEXIST;
    return -1;
  }
  if (int e = step("mkdir", p))
  {
    errno = e;
    return -1;
  }
  return r_mkdir(p, m);
}
int rename(const char* a, const char* b)
{
  real(r_rename, "rename");
  if (!below(a))
    return r_rename(a, b);
  In in;
  if (int e = step("rename", a))
  {
    errno = e;
    return -1;
  }
  return r_rename(a, b);
}
#define RCT_SIM_DROP(name)                                                                                             \
  int name(const char* p)                                                                                              \
  {                                                                                                                    \
    real(r_##name, #name);                                                                                             \
    if (!below(p))                                                                                                     \
      return r_##name(p);                                                                                              \
    In in;                                                                                                             \
    struct stat st;                                                                                                    \
    if (lstat(p, &st) != 0)                                                                                            \
      return r_##name(p);                                                                                              \
    int e = step(#name, p);                                                                                            \
    if (e && e != ENOSPC)                                                                                              \
    {                                                                                                                  \
      errno = e;                                                                                                       \
      return -1;                                                                                                       \
    }                                                                                                                  \
    if (e)                                                                                                             \
      --dlog.hard; /* removing something works on a full disk */                                                       \
    return r_##name(p);                                                                                                \
  }
RCT_SIM_DROP(unlink)
RCT_SIM_DROP(remove)
RCT_SIM_DROP(rmdir)
static int doOpen(int (*f)(const char*, int, ...), const char* p, int fl, mode_t m)
{
  if (!below(p) || (fl & O_ACCMODE) == O_RDONLY)
    return f(p, fl, m);
  In in;
  if (int e = step("open", p))
  {
    errno = e;
    return -1;
  }
  return f(p, fl, m);
}
int open(const char* p, int fl, ...)
{
  real(r_open, "open");
  va_list a;
  va_start(a, fl);
  mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return doOpen(r_open, p, fl, m);
}
int open64(const char* p, int fl, ...)
{
  real(r_open64, "open64");
  va_list a;
  va_start(a, fl);
  mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0;
  va_end(a);
  return doOpen(r_open64, p, fl, m);
}
int fsync(int fd)
{
  real(r_fsync, "fsync");
  if (!armed || inside)
    return r_fsync(fd);
  In in;
  std::string p = fdPath(fd);
  if (p.compare(0, root.size(), root) != 0)
    return r_fsync(fd);
  if (int e = step("fsync", p))
  {
    errno = e;
    return -1;
  }
  return 0;
}
}
