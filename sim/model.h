// Generator of experiences and their canonical (quantised, comparable) form.
#pragma once
#include "core.h"
#include <Types/include/Haptics.h>
#include <string>
#include <vector>

namespace model {
using haptics::types::Haptics;

enum class Fmt { Stream, Binary, Json };

struct CKf {
  long pos = -1; // -1: none
  std::string rest;
};
struct CEff {
  long id = -1; // -1: assigned by the encoder
  int type = 0;
  long pos = 0;
  bool anyPos = false; // position not constrained (receiver clock out of step)
  std::string attrs;
  std::vector<CKf> kfs;
  std::string wav;
  bool isWav = false;
  std::vector<CEff> tl;
  std::string str(bool withPos = true) const;
};
struct CBand {
  std::string meta;
  int type = 0;
  int blockLength = 0;
  std::vector<CEff> effects;
};
struct CChan {
  long id = 0;
  std::string meta;
  std::vector<CBand> bands;
};
struct CPerc {
  long id = 0;
  bool spatial = false;
  std::string meta;
  std::vector<CEff> lib;
  std::vector<CChan> ch;
};
struct CExp {
  std::string meta;
  unsigned timescale = 0;
  std::vector<std::string> avatars;
  std::vector<long> syncs;
  std::vector<CPerc> p;
};

// Canonical form of an experience as the given format can represent it.
CExp canon(Haptics &h, Fmt f);
// Every observable member of the experience, unquantised: for "source unchanged" checks.
std::string fullDump(Haptics &h);
std::string text(const CExp &e);
// Empty when equal; otherwise the first difference. Effects are compared as multisets.
std::string diff(const CExp &want, const CExp &got, bool compareSyncs = false);
std::string diffOrdered(const CExp &want, const CExp &got, bool compareSyncs = false);
std::string disorder(const CExp &got); // an effect of a band stored before an earlier one
std::string diffMeta(const CExp &want, const CExp &got); // everything except band effects
std::string diffEffects(const std::vector<CEff> &want, const std::vector<CEff> &got);
// Components without any effect (and basis effects without keyframes) removed.
CExp pruned(const CExp &e);
// Forget ids which are not explicit in the source.
void forgetIds(CExp &got, const CExp &source);

struct GenOpts {
  Fmt fmt = Fmt::Stream;
  int packetDuration = 128;
  int windows = 6;
  bool wavelet = true;
  bool spatial = true;
  bool library = true;
  bool empties = true;
  bool composites = false;
  bool big = false;
  bool gaps = true; // long silences (streams only)
  bool far = false;  // positions at the end of their field
  int bulk = 0; // additional effects in one band (files beyond one I/O buffer)
  bool syncs = false;
  bool portable = false; // JSON only: what the stream and binary formats can hold as well
  bool explicitIds = false;
};
Haptics generate(sim::Sim &s, const GenOpts &o);
int genPacketDuration(sim::Choices &c);
unsigned genTimescale(sim::Choices &c, unsigned most);
} // namespace model
