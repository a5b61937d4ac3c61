// Deterministic simulation core: choice streams, event log, counters, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

// Thrown by checkers only; deliberately not a std::exception so that nothing in the
// code under test can swallow it.
struct Violation {
  std::string cls;
  std::string msg;
};

// One recorded stream of choices. 0 is always the simplest choice (no fault, smallest size).
class Choices {
public:
  void seed(uint64_t s) {
    state = s;
    replaying = false;
    rec.clear();
    pos = 0;
  }
  void replay(const std::vector<uint32_t> &r) {
    rep = r;
    replaying = true;
    rec.clear();
    pos = 0;
  }
  uint32_t draw(uint32_t n); // uniform in [0,n)
  uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
  bool chance(uint32_t percent) { return draw(100) >= 100 - percent; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw((uint32_t)l.size())); }
  std::vector<uint32_t> rec;
  int stream = 0;

private:
  void record(uint32_t v);
  uint64_t next();
  uint64_t state = 0;
  bool replaying = false;
  std::vector<uint32_t> rep;
  size_t pos = 0;
};

// Mirror of the running execution in memory shared with the supervising process, so that an
// execution that dies (crash, hang, memory blow-up) can still be replayed and minimised.
struct Mirror {
  static constexpr uint32_t CAP = 1u << 18;
  uint64_t idx;
  uint64_t hash;
  uint64_t events;
  uint32_t n[3];
  uint32_t data[3][CAP];
};
extern Mirror *mirror;

enum { CONTENT = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };

struct Sim {
  Choices ch[NSTREAMS];
  Choices &c() { return ch[CONTENT]; }
  Choices &s() { return ch[SCHED]; }
  Choices &f() { return ch[FAULT]; }
  bool faulty = true; // configuration of this run: faults enabled or not
  bool trace = false; // print events
  bool thorough = false;
  uint64_t hash = 1469598103934665603ULL;
  uint64_t events = 0;
  uint64_t simTime = 0; // simulated stream ticks/time covered
  std::map<std::string, uint64_t> count;
  std::unordered_set<uint64_t> states;

  void log(const std::string &e);
  void logHash(const std::string &what, const std::string &data);
  void hit(const std::string &probe, uint64_t n = 1) { count[probe] += n; }
  void cover(uint64_t sig) { states.insert(sig); }
  [[noreturn]] void fail(const std::string &cls, const std::string &msg);
  bool holds(bool ok) { return ok; }
};

// s.check(condition, class, message): the message is only put together when the condition fails
#define check(condition, cls, ...) holds(condition) ? (void)0 : s.fail(cls, __VA_ARGS__)

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  return fnv(s.data(), s.size(), h);
}

// Starts the processor-time bound of the next operation.
void budget();

using Scenario = void (*)(Sim &);
struct ScenarioInfo {
  const char *id;
  Scenario fn;
  int quickRuns;
  int thoroughRuns;
};
const std::vector<ScenarioInfo> &scenarios();

} // namespace sim
