// Storage seam: the C library's file calls are interposed. Below the armed directory every operation that changes the
// disk is counted and can be failed, cut short, or be the point at which the process dies. Standard I/O streams are
// buffered here as the C library buffers them, so data not yet flushed is lost with the process and a full disk shows
// up when the buffer is flushed.
#pragma once
#include <string>
#include <vector>
namespace sim
{
struct DiskFault
{
  long at = 0;          // operation number
  int err = 0;          // errno; 0: short write without an error (allowed by the system, to be continued by the caller)
  bool crash = false;   // the process dies during this operation
  bool stays = false;   // every later operation of that sort fails too (disk full, device gone)
  double part = 0;      // share of a write that reaches the disk
};
struct DiskLog
{
  long ops = 0;
  int hard = 0, soft = 0;  // faults that took effect
  std::string text;        // operations and faults, for reports
};
struct Storage
{
  static void arm(const std::string& dir, const std::vector<DiskFault>& f);
  static DiskLog disarm();
  // reading: these files (full path) cannot be opened while armed
  static void unreadable(const std::vector<std::string>& files);
};
}  // namespace sim
