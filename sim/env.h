// Simulated environment: heap, disk, clock, randomness and thread scheduler.
// Everything here replaces a libc / libstdc++ entry point by symbol interposition, so the
// code under test runs unmodified.
#pragma once
#include "core.h"
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace env {

// ---------------------------------------------------------------- heap
struct Heap {
  bool armed = false;      // count and fail allocations of the code under test
  uint64_t count = 0;      // allocations since arm()
  uint64_t failAt = 0;     // 1-based index of the allocation that fails (0 = none)
  bool failed = false;     // the planned failure fired
  int fill = -1;           // byte pattern for fresh memory (-1: none)
  uint64_t live = 0;       // live bytes (operator new)
  uint64_t cap = 0;        // live bytes at which the run is declared a memory blow-up (0: none)
};
extern Heap heap;
void arm(uint64_t failAt);
void disarm();
void paintStack(unsigned char b);

// ---------------------------------------------------------------- disk
struct DiskPlan {
  bool frag = false;          // short reads and writes, drawn from the schedule stream
  bool eintr = false;         // interrupted calls
  int64_t failReadAt = -1;    // total bytes delivered before reads fail with EIO
  int64_t failWriteAt = -1;   // total bytes accepted before writes fail
  int writeErrno = 28;        // ENOSPC or EIO
  int failOpen = -1;          // index of the open that fails
  int openErrno = 13;
  int failClose = -1;         // index of the close that reports EIO (deferred write-back error)
  bool closeLosesTail = false;
  int failSeek = -1;          // index of the seek that fails
  int64_t crashAt = -1;       // total bytes written at which the machine stops
};
struct Disk {
  std::map<std::string, std::string> files;
  DiskPlan plan;
  sim::Sim *s = nullptr;
  int64_t bytesRead = 0, bytesWritten = 0;
  int opens = 0, closes = 0, seeks = 0, reads = 0, writes = 0;
  int openNow = 0;
  int opened = 0;    // opens that gave a handle, since begin()
  int badCloses = 0; // closes of a handle that is not open
  bool crashed = false;
  // faults that fired since begin()
  int firedShort = 0, firedEintr = 0, firedRead = 0, firedWrite = 0, firedOpen = 0, firedClose = 0,
      firedSeek = 0;
  bool hardFault() const { return firedRead + firedWrite + firedOpen + firedClose + firedSeek > 0; }
};
extern Disk disk;
void diskReset(sim::Sim &s);           // empty disk, no plan
void diskBegin(const DiskPlan &p);     // counters to zero, plan installed
void diskEnd();                        // plan removed; probes recorded in the Sim
constexpr const char *ROOT = "/simdisk/";

// ---------------------------------------------------------------- clock and randomness
struct Clock {
  bool active = false;
  int64_t now = 1700000000; // seconds
  int64_t nsec = 0;
  int64_t step = 1; // advance per call (ns)
  uint64_t calls = 0;
  uint64_t rnd = 1;
};
extern Clock clock;

// ---------------------------------------------------------------- threads
// Runs the tasks concurrently under the simulator's scheduler: exactly one runs at a time and
// control moves only at yield points (allocation, disk call), as drawn from the schedule stream.
void runThreads(sim::Sim &s, std::vector<std::function<void()>> tasks, uint32_t maxSlice);
void yieldPoint();
extern uint64_t switches;

} // namespace env
