// Documents in every file format of the software, saved to and loaded from the simulated disk by
// the real code.
#pragma once
#include "env.h"
#include "model.h"
#include "stream.h"
#include <Tools/include/OHMData.h>

namespace store {
using haptics::tools::OHMData;
using haptics::types::Haptics;
using haptics::types::Perception;

enum Kind { STREAM, BINARY, JSON, OHM, AHAP, IVS };
const char *name(Kind k);
enum class Res { OK, FAIL, THREW };
const char *name(Res r);

struct Doc {
  Kind kind = STREAM;
  int pd = 128;
  unsigned ts = 1000; // for AHAP and IVS
  Haptics h;
  OHMData ohm;
  std::string source;   // AHAP and IVS text
  model::CExp src;      // canonical form, STREAM (pruned), BINARY and JSON
  std::string ohmText;  // canonical form, OHM
  bool savable() const { return kind <= OHM; }
  std::string dump(); // every member of the source object
  std::string brief();
};
struct GenDoc {
  bool composites = true;
  bool bulk = true;
  bool wavelet = true;
  bool far = false; // positions up to the end of their field (not for documents that are saved as streams as well)
  bool validDate = false; // a date every writer stores as it is
  bool portable = false; // what every format can hold (JSON documents)
  bool renderable = false; // complete basis effects only: what the synthesizer can evaluate
};
Doc genDoc(sim::Sim &s, Kind k, const GenDoc &g = GenDoc());
Kind drawKind(sim::Sim &s, bool withImports);

struct Loaded {
  Haptics h;
  OHMData ohm;
  Perception p;
};
struct Call {
  Res res = Res::OK;
  std::string what;
  uint64_t allocs = 0;
  bool allocFailed = false;
};
// failAlloc: 0 none, otherwise the index of the allocation that fails
Call save(Doc &d, const std::string &path, uint64_t failAlloc = 0);
Call load(const Doc &d, const std::string &path, Loaded &out, uint64_t failAlloc = 0);
// without accounting, for use by simulated threads
bool rawSave(Doc &d, const std::string &path);
bool rawLoad(const Doc &d, const std::string &path, Loaded &out);
std::string dumpLoaded(Kind k, Loaded &l);
std::string ohmText(OHMData &o, bool stored);
// "" when the loaded experience is the source up to the format's quantisation
std::string compare(Doc &d, Loaded &l);

// The fault-free save and load of a document.
struct World {
  Doc d;
  std::string path, bytes, dump;
  bool ok = false; // healthy save and load worked
  std::string why;
};
World makeWorld(sim::Sim &s, Kind k, const GenDoc &g = GenDoc());
env::DiskPlan writeFaults(sim::Sim &s, size_t size);
env::DiskPlan readFaults(sim::Sim &s, size_t size);
env::DiskPlan benign(sim::Sim &s);
std::string planText(const env::DiskPlan &p);
std::string mutate(sim::Sim &s, const std::string &bytes, std::string &how);
// Files nobody asked for, with names a program might derive from the path.
void bystanders(sim::Sim &s, const std::string &path);
// "" when no file but the allowed ones was created, changed or deleted.
std::string foreignChange(const std::map<std::string, std::string> &before, const std::set<std::string> &allowed);
} // namespace store
