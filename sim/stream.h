// The simulated link: an independent reader of unit and packet framing, the model of what each
// unit carries, and a receiver wrapper around the real IOStream reader.
#pragma once
#include "env.h"
#include "model.h"
#include <IOHaptics/include/IOStream.h>

namespace link {
using Bits = std::vector<bool>;
using haptics::io::IOStream;

enum UnitType { INIT = 0, TEMPORAL = 1, SPATIAL = 2, SILENT = 3 };
enum PacketType { P_DATA = 5 };

struct Packet {
  int type = 0;
  size_t at = 0, len = 0; // bit range inside the unit, header included
  bool dau = false;
  int perc = -1, chan = -1, band = -1;
};
struct Unit {
  Bits bits;
  int type = 0;
  bool sync = false; // flagged as a synchronisation unit
  long duration = 0;
  long start = 0, end = 0; // sender time
  long initTime = -1;
  std::vector<Packet> packets;
};

uint32_t bitsAt(const Bits &b, size_t at, size_t n);
void setBits(Bits &b, size_t at, size_t n, uint32_t v);
std::string packBits(const Bits &b);
// Independent framing parser; fails the run when a unit written by the encoder is malformed.
std::vector<Unit> parse(sim::Sim &s, const std::vector<Bits> &units);
// Order of the packets permuted across bands, order inside a band kept.
Bits shufflePackets(sim::Sim &s, const Unit &u);

struct Rx {
  IOStream::StreamReader r;
  IOStream::CRC crc;
  Rx() : r(IOStream::initializeStream()) {}
  bool feed(const Bits &unit);      // exceptions escape
  bool feedValid(sim::Sim &s, const Bits &unit, const char *what); // must succeed
  model::CExp got(const model::CExp &source); // canonical, encoder-assigned ids forgotten
};

// A well-framed unit of packets of any type, also types the encoder never writes, in any order: built from
// extreme timing values, packets of the given units with overwritten fields, checksums and random bytes.
Bits composed(sim::Sim &s, const std::vector<Unit> &from);
// The units of a stored stream.
std::vector<Unit> unitsOf(sim::Sim &s, const std::string &bytes);

// What a set of delivered units carries.
struct Window {
  long start, end;
  bool inStep;
};
model::CExp carried(const model::CExp &src, const std::vector<Window> &w);
std::vector<Bits> encode(sim::Sim &s, haptics::types::Haptics &h, int pd);
long firstTime(const model::CEff &e);
struct Case {
  model::GenOpts o;
  haptics::types::Haptics h;
  model::CExp src; // canonical, pruned
  std::vector<Unit> units;
  int pd = 0;
};
Case makeCase(sim::Sim &s, bool syncs = false);
std::string brief(const Case &c);
} // namespace link
