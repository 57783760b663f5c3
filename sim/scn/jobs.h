// A library of small, complete calls into the code under test. A job is a kind and a seed; its outcome is everything the
// call returned (or the error it raised).
#pragma once
#include "../core/sim.h"
#include <memory>
#include <string>
#include <vector>
namespace jobs
{
struct Out
{
  bool threw = false, modified = false;
  std::string err;
  std::vector<double> num;
  std::vector<std::string> str;
};
struct World;  // read-only objects shared by callers: robots, targets, finders, images
std::shared_ptr<const World> makeWorld(uint64_t seed, bool images);
int kinds();
const char* name(int kind);
bool image(int kind);    // needs rendered images
bool threads(int kind);  // starts worker threads of its own
// variant: 0 good input, else some kind of unusable input. prepare() builds the input, call() makes the library call
struct Job
{
  virtual ~Job() {}
  virtual void call(Out& o) = 0;  // may throw
  virtual uint64_t input() const = 0;
  Out run()
  {
    Out o;
    uint64_t before = input();
    try
    {
      call(o);
    }
    catch (const std::bad_alloc& e)
    {
      o = Out();
      o.threw = true;
      o.err = "bad_alloc";
    }
    catch (const std::exception& e)
    {
      o = Out();
      o.threw = true;
      o.err = e.what();
    }
    catch (...)
    {
      o = Out();
      o.threw = true;
      o.err = "unknown exception";
    }
    o.modified = input() != before;
    return o;
  }
};
std::unique_ptr<Job> prepare(std::shared_ptr<const World> w, int kind, uint64_t seed, int variant);
std::string diff(const Out& want, const Out& got, double tol);  // empty: equal
// runs f in a child process of its own
Out pristine(const std::function<Out()>& f, bool& crashed, std::string& how);
}  // namespace jobs
