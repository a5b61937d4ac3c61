// S01..S07: sender, link and receivers of MIHS streams.
#include "stream.h"
#include <algorithm>
#include <memory>

using namespace link;
using model::CExp;
using sim::Sim;

namespace {
std::string why(const std::string &d, const Case &c) { return d + "\n" + brief(c); }

std::vector<Window> windowsOf(const std::vector<Unit> &u, size_t upTo) {
  std::vector<Window> w;
  for (size_t i = 0; i < upTo && i < u.size(); i++) {
    if (u[i].type == TEMPORAL || u[i].type == SPATIAL) {
      w.push_back({u[i].start, u[i].end, true});
    }
  }
  return w;
}

// Every piece of content of the source is carried by exactly one unit of the stream.
void checkCarriedComplete(Sim &s, const Case &c) {
  CExp all = carried(c.src, windowsOf(c.units, c.units.size()));
  std::string d = model::diff(c.src, all);
  s.check(d.empty(), "content-without-unit",
          why("content scheduled at a time no unit covers: " + d, c));
}

void expectEqual(Sim &s, const Case &c, Rx &rx, const CExp &want, const char *cls, const std::string &what) {
  CExp got = rx.got(c.src);
  std::string d = model::diff(want, got);
  s.check(d.empty(), cls, d.empty() ? "" : why(what + ": " + d + "\nreceived:\n" + model::text(got), c));
}
} // namespace

// ---------------------------------------------------------------- S01
void scenS01(Sim &s) {
  uint32_t n = s.faulty && s.c().chance(40) ? s.c().range(2, 3) : 1;
  std::vector<Case> cases;
  for (uint32_t i = 0; i < n; i++) {
    cases.push_back(makeCase(s, s.c().chance(20)));
  }
  std::vector<Rx> rx(n);
  std::vector<size_t> next(n, 0);
  std::vector<uint32_t> live;
  for (uint32_t i = 0; i < n; i++) {
    live.push_back(i);
  }
  bool shuffle = s.faulty && s.f().chance(60);
  while (!live.empty()) {
    uint32_t k = s.s().draw((uint32_t)live.size());
    uint32_t i = live[k];
    const Unit &u = cases[i].units[next[i]];
    if (n > 1) {
      s.hit("interleaved_reads");
    }
    if (s.faulty && s.f().chance(4)) {
      // the receiver's state is saved, lost and restored, with the state of another one in between
      auto saved = std::make_unique<Rx>(rx[i]);
      rx[i] = rx[s.f().draw(n)];
      rx[i] = Rx();
      rx[i] = *saved;
      saved.reset();
      s.hit("fault:receiver_moved");
    }
    rx[i].feedValid(s, shuffle ? shufflePackets(s, u) : u.bits, "valid");
    s.log("receiver " + std::to_string(i) + " unit " + std::to_string(next[i]));
    if (++next[i] == cases[i].units.size()) {
      live.erase(live.begin() + k);
    }
  }
  for (uint32_t i = 0; i < n; i++) {
    expectEqual(s, cases[i], rx[i], cases[i].src, "not-delivered", "complete stream");
    CExp got = rx[i].got(cases[i].src);
    // the receiver knows the synchronisation points by the initialisation units sent at them
    std::vector<long> at;
    for (const auto &u : cases[i].units) {
      if (u.type == INIT) {
        at.push_back(u.initTime);
      }
    }
    s.check(got.syncs == at, "syncs-not-delivered", why("the synchronisation points differ: " + model::text(got), cases[i]));
    std::string d = model::disorder(got);
    s.check(d.empty(), "effects-out-of-order", d.empty() ? "" : why(d, cases[i]));
  }
}

// ---------------------------------------------------------------- S02
void scenS02(Sim &s) {
  Case c = makeCase(s, s.c().chance(50));
  Rx rx;
  std::vector<Window> got;
  uint32_t rate = s.faulty ? s.f().pick<uint32_t>({10, 30, 60, 90}) : 0;
  bool burst = s.faulty && s.f().chance(30);
  bool inStep = true, dropping = false;
  long lost = 0;
  for (size_t i = 0; i < c.units.size(); i++) {
    const Unit &u = c.units[i];
    bool drop = false;
    if (i > 0 && s.faulty) {
      if (burst) {
        if (s.f().chance(25)) {
          dropping = !dropping;
        }
        drop = dropping;
      } else {
        drop = s.f().chance(rate);
      }
    }
    if (drop) {
      s.hit("fault:unit_lost");
      s.log("lost unit " + std::to_string(i));
      lost += u.duration;
      inStep = lost == 0;
      continue;
    }
    if (u.type == INIT) {
      if (lost > 0) {
        s.hit("clock_back_in_step");
      }
      lost = 0;
      inStep = true;
    }
    rx.feedValid(s, u.bits, "surviving");
    if (u.type != INIT && u.type != SILENT) {
      got.push_back({u.start, u.end, inStep});
    }
    if (inStep) {
      s.check((long)rx.r.time == u.end, "clock-out-of-step",
              "after unit " + std::to_string(i) + " the receiver clock is " +
                  std::to_string(rx.r.time) + ", the sender's " + std::to_string(u.end) + "\n" +
                  brief(c));
    }
  }
  checkCarriedComplete(s, c);
  expectEqual(s, c, rx, carried(c.src, got), "lossy-content", "after losses");
}

// ---------------------------------------------------------------- S03
void scenS03(Sim &s) {
  Case c = makeCase(s, true);
  Rx rx;
  std::vector<Window> got;
  bool have = false;
  CExp empty;
  empty = rx.got(c.src);
  size_t start = s.faulty ? s.f().draw((uint32_t)c.units.size()) : 0;
  uint32_t restarts = s.faulty ? s.f().draw(4) : 0;
  if (start > 0) {
    s.hit("fault:late_join");
  }
  for (size_t i = start; i < c.units.size(); i++) {
    if (restarts > 0 && i > start && s.f().chance(30)) {
      restarts--;
      s.hit("fault:receiver_restart");
      s.log("receiver restarts before unit " + std::to_string(i));
      rx = Rx();
      have = false;
      got.clear();
    }
    const Unit &u = c.units[i];
    if (u.type == INIT) {
      if (!have && i > 0) {
        s.hit("recovered_at_sync");
      }
      have = true;
    }
    if (!have) {
      bool ok = true;
      try {
        ok = rx.feed(u.bits);
      } catch (const std::exception &e) {
        s.fail("early-unit-throws", std::string("unit before initialisation: reading it threw ") + e.what());
      }
      s.hit("units_before_initialisation");
      if (u.type != SILENT && !u.packets.empty()) {
        s.check(!ok, "early-unit-accepted",
                why("data unit " + std::to_string(i) + " was accepted before any initialisation unit", c));
      }
      CExp g = rx.got(c.src);
      s.check(g.p.empty(), "early-unit-invents",
              "a data unit created components before any initialisation unit:\n" + model::text(g));
      continue;
    }
    rx.feedValid(s, u.bits, "joined");
    if (u.type != INIT && u.type != SILENT) {
      got.push_back({u.start, u.end, true});
    }
    s.check((long)rx.r.time == u.end, "clock-out-of-step",
            why("receiver clock " + std::to_string(rx.r.time) + " after unit " + std::to_string(i), c));
  }
  checkCarriedComplete(s, c);
  if (have) {
    expectEqual(s, c, rx, carried(c.src, got), "join-content", "late join or restart");
  }
}

// ---------------------------------------------------------------- S04
void scenS04(Sim &s) {
  Case c = makeCase(s, s.c().chance(60));
  Rx rx, once;
  std::vector<Window> got;
  bool first = true;
  const Unit *lastInit = nullptr;
  for (size_t i = 0; i < c.units.size(); i++) {
    const Unit &u = c.units[i];
    rx.feedValid(s, u.bits, "valid");
    if (u.type == INIT) {
      lastInit = &u;
      if (!first) {
        s.hit("sync_point_initialisation");
      }
      first = false;
    } else if (u.type != SILENT) {
      got.push_back({u.start, u.end, true});
    }
    std::string where = "after unit " + std::to_string(i);
    if (u.type == INIT || i + 1 == c.units.size()) {
      expectEqual(s, c, rx, carried(c.src, got), "initialisation-changes", where);
    }
    uint32_t dup = s.faulty && (u.type == INIT || s.f().chance(25)) ? s.f().draw(3) : 0;
    for (uint32_t k = 0; k < dup; k++) {
      std::string before = model::text(rx.got(c.src));
      std::vector<long> syncs = rx.got(c.src).syncs;
      std::string dumpBefore = model::fullDump(rx.r.haptic);
      auto t = rx.r.time;
      rx.feedValid(s, lastInit->bits, "repeated initialisation");
      s.hit("fault:init_retransmitted");
      s.log("initialisation again " + where);
      std::string after = model::text(rx.got(c.src));
      s.check(before == after, "initialisation-changes",
              "receiving initialisation again " + where + " changed the experience\nbefore:\n" +
                  before + "after:\n" + after);
      std::string dumpAfter = model::fullDump(rx.r.haptic);
      s.check(dumpBefore == dumpAfter, "initialisation-changes",
              "receiving initialisation again " + where + " changed a field\nbefore:\n" + dumpBefore +
                  "after:\n" + dumpAfter);
      rx.r.time = t; // a late retransmission must not be taken as a clock reference here
    }
  }
  // the same content without synchronisation points
  haptics::types::Haptics plain = c.h;
  Case p;
  p.o = c.o;
  p.pd = c.pd;
  p.h = haptics::types::Haptics();
  CExp a = rx.got(c.src);
  std::string d = model::diff(c.src, a);
  s.check(d.empty(), "initialisation-changes", why("with repeated initialisation: " + d, c));
  std::set<long> uniq(a.syncs.begin(), a.syncs.end());
  s.check(uniq.size() == a.syncs.size(), "initialisation-changes",
          "a synchronisation point is recorded twice\n" + model::text(a));
}

// ---------------------------------------------------------------- S05
namespace {
struct BandRef {
  const model::CBand *b = nullptr;
  bool spatial = false;
  long perc = 0, chan = 0;
};
std::vector<BandRef> bandIndex(const CExp &e) {
  std::vector<BandRef> r;
  for (const auto &p : e.p) {
    for (const auto &c : p.ch) {
      for (const auto &b : c.bands) {
        r.push_back({&b, p.spatial, p.id, c.id});
      }
    }
  }
  return r;
}
// Band ids are 8 bits counted over the experience: unique inside a channel.
int bandOf(const std::vector<BandRef> &bands, const link::Packet &p) {
  for (size_t i = 0; i < bands.size(); i++) {
    if ((int)(i & 255) == p.band && bands[i].perc == p.perc && bands[i].chan == p.chan) {
      return (int)i;
    }
  }
  return -1;
}
bool continues(const BandRef &b, const Unit &u) {
  if (b.spatial) {
    return false;
  }
  for (const auto &e : b.b->effects) {
    if (e.type != 0 || e.isWav || e.kfs.empty()) {
      continue;
    }
    bool in = false;
    for (const auto &k : e.kfs) {
      long t = e.pos + k.pos;
      in = in || (t >= u.start && t < u.end);
    }
    if (in && firstTime(e) < u.start) {
      return true;
    }
  }
  return false;
}
} // namespace

void scenS05(Sim &s) {
  Case c = makeCase(s, s.c().chance(30));
  auto bands = bandIndex(c.src);
  checkCarriedComplete(s, c);
  for (size_t i = 0; i < c.units.size(); i++) {
    const Unit &u = c.units[i];
    if (u.type == SILENT) {
      // a silence announces what comes after it
      size_t j = i + 1;
      while (j < c.units.size() && c.units[j].type == SILENT) {
        j++;
      }
      if (j < c.units.size()) {
        s.check(u.sync == c.units[j].sync, "silence-announces-wrong-unit", why("unit " + std::to_string(i), c));
        s.hit(u.sync ? "silences_before_random_access" : "silences_before_dependent");
      }
    }
    if (u.type != TEMPORAL) {
      continue;
    }
    bool dep = false;
    for (const auto &p : u.packets) {
      if (p.type != P_DATA) {
        continue;
      }
      int at = bandOf(bands, p);
      s.check(at >= 0, "unknown-band",
              why("unit " + std::to_string(i) + " has a packet for an unknown band", c));
      bool want = continues(bands[(size_t)at], u);
      dep = dep || want;
      s.check(p.dau == want, want ? "dependent-packet-flagged-independent" : "independent-packet-flagged-dependent",
              why("unit " + std::to_string(i) + " band " + std::to_string(at), c));
    }
    s.check(u.sync == !dep, dep ? "dependent-unit-flagged-sync" : "sync-unit-flagged-dependent",
            why("unit " + std::to_string(i), c));
    s.hit(dep ? "dependent_units" : "random_access_units");
  }
  // a receiver that waits for synchronisation from a random unit on
  Rx rx;
  std::vector<Window> before;
  size_t from = s.faulty ? s.f().range(1, (uint32_t)c.units.size()) : c.units.size();
  for (size_t i = 0; i < from; i++) {
    rx.feedValid(s, c.units[i].bits, "valid");
  }
  CExp lower = carried(c.src, windowsOf(c.units, from)), upper = lower;
  if (from < c.units.size()) {
    s.hit("fault:waiting_for_sync");
  }
  rx.r.waitSync = true;
  // model: what must be and what may be received
  bool waiting = true;
  std::vector<std::vector<Window>> lo(bands.size()), hi(bands.size());
  for (size_t i = 0; i < from; i++) {
    if (c.units[i].type == TEMPORAL) {
      for (auto &l : lo) {
        l.push_back({c.units[i].start, c.units[i].end, true});
      }
      for (auto &l : hi) {
        l.push_back({c.units[i].start, c.units[i].end, true});
      }
    }
  }
  for (size_t i = from; i < c.units.size(); i++) {
    const Unit &u = c.units[i];
    bool stay = waiting;
    if (u.sync && u.type != SILENT) {
      stay = false;
    }
    bool anyIndep = false;
    for (const auto &p : u.packets) {
      anyIndep = anyIndep || (p.type == P_DATA && !p.dau);
    }
    if (u.type == SILENT && u.sync) {
      // announces that the next unit is a synchronisation unit: ending the wait here is equivalent
      stay = waiting;
    }
    rx.feedValid(s, u.bits, stay ? "unit received while waiting for synchronisation:" : "valid");
    s.check((long)rx.r.time == u.end, "clock-out-of-step",
            why("receiver clock " + std::to_string(rx.r.time) + " after unit " + std::to_string(i) +
                    " (waiting for synchronisation)", c));
    if (u.type == TEMPORAL) {
      std::map<int, bool> dependent; // the bands that have a packet
      for (const auto &p : u.packets) {
        if (p.type == P_DATA) {
          dependent[bandOf(bands, p)] = p.dau;
        }
      }
      for (const auto &[at, dau] : dependent) {
        auto b = (size_t)at;
        Window w{u.start, u.end, true};
        if (!stay || !dau) {
          lo[b].push_back(w);
          hi[b].push_back(w);
        } else if (anyIndep) {
          hi[b].push_back(w); // order inside the unit decides
        } else {
          s.hit("dependent_packets_ignored");
        }
      }
    }
    if (!stay || anyIndep) {
      waiting = false;
    }
  }
  CExp got = rx.got(c.src);
  std::string dm = model::diffMeta(c.src, got);
  s.check(dm.empty(), "wait-changes-metadata", why(dm, c));
  size_t b = 0;
  for (size_t p = 0; p < c.src.p.size(); p++) {
    for (size_t k = 0; k < c.src.p[p].ch.size(); k++) {
      for (size_t j = 0; j < c.src.p[p].ch[k].bands.size(); j++, b++) {
        CExp l = carried(c.src, lo[b]), h = carried(c.src, hi[b]);
        const auto &g = got.p[p].ch[k].bands[j].effects;
        std::string d = model::diffEffects(l.p[p].ch[k].bands[j].effects, g);
        if (!d.empty()) {
          d = model::diffEffects(h.p[p].ch[k].bands[j].effects, g);
        }
        s.check(d.empty(), "wait-content",
                why("band " + std::to_string(b) + " of a receiver waiting for synchronisation from unit " +
                        std::to_string(from) + ": " + d, c));
      }
    }
  }
}

// ---------------------------------------------------------------- S06
void scenS06(Sim &s) {
  Case c = makeCase(s, s.c().chance(60));
  Rx rx;
  uint32_t peek = s.faulty ? 100 : 100;
  for (size_t i = 0; i < c.units.size(); i++) {
    const Unit &u = c.units[i];
    rx.feedValid(s, u.bits, "valid");
    s.check((long)rx.r.time == u.end, "clock-out-of-step",
            why("receiver clock " + std::to_string(rx.r.time) + " after unit " + std::to_string(i), c));
    if (s.s().draw(100) < peek) {
      // everything before the clock is here, nothing from after it
      std::vector<Window> w{{-1000000, (long)rx.r.time, true}};
      CExp want = carried(c.src, w);
      CExp got = rx.got(c.src);
      for (size_t p = 0; p < want.p.size() && p < got.p.size(); p++) {
        if (want.p[p].spatial) {
          got.p[p].ch.clear();
          want.p[p].ch.clear();
        }
      }
      std::string d = model::diff(want, got);
      s.check(d.empty(), "untimely", d.empty() ? "" : why("after unit " + std::to_string(i) + " at clock " +
                                         std::to_string(rx.r.time) + ": " + d, c));
      s.hit("prefixes_checked");
    }
  }
  long end = c.units.empty() ? 0 : c.units.back().end;
  for (size_t k = 0; k < c.h.getSyncsSize(); k++) {
    long t = c.h.getSyncsAt((int)k).getTimestamp();
    if (t <= 0 || t >= end) {
      continue;
    }
    bool boundary = false, init = false;
    for (const auto &u : c.units) {
      boundary = boundary || (u.type != INIT && u.end == t);
      init = init || (u.type == INIT && u.start == t);
    }
    if (boundary) {
      s.hit("sync_points_on_boundary");
      s.check(init, "sync-point-not-sent",
              why("no initialisation unit at synchronisation point " + std::to_string(t), c));
    } else {
      s.hit("sync_points_off_boundary");
    }
  }
}

// ---------------------------------------------------------------- S08
namespace {
using haptics::types::Band;
using haptics::types::Channel;
using haptics::types::Haptics;
using haptics::types::Perception;

bool isSpatial(haptics::types::PerceptionModality m) {
  using M = haptics::types::PerceptionModality;
  return m == M::VibrotactileTexture || m == M::Stiffness || m == M::Friction;
}
// The same content under the metadata of another experience, wholly or in part.
Haptics redescribed(Sim &s, Haptics from, const model::GenOpts &o) {
  auto &c = s.c();
  model::GenOpts d = o;
  d.windows = 1;
  Haptics donor = model::generate(s, d);
  if (c.chance(60)) {
    std::string t = donor.getVersion();
    from.setVersion(t);
    t = donor.getProfile();
    from.setProfile(t);
    from.setLevel(donor.getLevel());
    t = donor.getDate();
    from.setDate(t);
    t = donor.getDescription();
    from.setDescription(t);
    s.hit("changed.experience");
  }
  if (c.chance(50)) {
    from.clearAvatars();
    for (int i = 0; i < (int)donor.getAvatarsSize(); i++) {
      from.addAvatar(donor.getAvatarAt(i));
    }
    s.hit("changed.avatars");
  }
  std::vector<Perception *> dp;
  std::vector<Channel *> dc;
  for (int i = 0; i < (int)donor.getPerceptionsSize(); i++) {
    dp.push_back(&donor.getPerceptionAt(i));
    for (int j = 0; j < (int)dp.back()->getChannelsSize(); j++) {
      dc.push_back(&dp.back()->getChannelAt(j));
    }
  }
  for (int i = 0; i < (int)from.getPerceptionsSize(); i++) {
    Perception old = from.getPerceptionAt(i);
    for (int j = 0; j < (int)old.getChannelsSize(); j++) {
      Channel was = old.getChannelAt(j);
      for (int k = 0; k < (int)was.getBandsSize(); k++) {
        if (!c.chance(50)) {
          continue;
        }
        Band &b = was.getBandAt(k);
        b.setPriority(c.pick<int>({0, 1, 255, (int)c.draw(256)}));
        b.setLowerFrequencyLimit((int)c.draw(2000));
        b.setUpperFrequencyLimit(b.getLowerFrequencyLimit() + (int)c.draw(60000));
        if (b.getBandType() == haptics::types::BandType::Curve) {
          b.setCurveType((haptics::types::CurveType)c.draw(6));
        }
        s.hit("changed.band");
      }
      if (!dc.empty() && c.chance(60)) {
        Channel now = *dc[c.draw((uint32_t)dc.size())];
        now.setId(was.getId());
        now.clearBands();
        for (int k = 0; k < (int)was.getBandsSize(); k++) {
          now.addBand(was.getBandAt(k));
        }
        was = now;
        s.hit("changed.channel");
      }
      old.replaceChannelAt(j, was);
    }
    if (!dp.empty() && c.chance(60)) {
      Perception now = *dp[c.draw((uint32_t)dp.size())];
      now.setId(old.getId());
      if (isSpatial(now.getPerceptionModality()) != isSpatial(old.getPerceptionModality())) {
        now.setPerceptionModality(old.getPerceptionModality());
      }
      now.clearChannels();
      for (int j = 0; j < (int)old.getChannelsSize(); j++) {
        now.addChannel(old.getChannelAt(j));
      }
      old = now;
      s.hit("changed.perception");
    }
    from.replacePerceptionAt(i, old);
  }
  return from;
}
bool hasWavelets(Haptics &h) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    for (int j = 0; j < (int)h.getPerceptionAt(i).getChannelsSize(); j++) {
      Channel &ch = h.getPerceptionAt(i).getChannelAt(j);
      for (int k = 0; k < (int)ch.getBandsSize(); k++) {
        if (ch.getBandAt(k).getBandType() == haptics::types::BandType::WaveletWave) {
          return true;
        }
      }
    }
  }
  return false;
}
// Every effect gets an id of its own, so that its parts are recognised across versions.
void nameEffects(Haptics &h) {
  int id = 0;
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    for (int j = 0; j < (int)h.getPerceptionAt(i).getChannelsSize(); j++) {
      Channel &ch = h.getPerceptionAt(i).getChannelAt(j);
      for (int k = 0; k < (int)ch.getBandsSize(); k++) {
        for (int l = 0; l < (int)ch.getBandAt(k).getEffectsSize(); l++) {
          auto &e = ch.getBandAt(k).getEffectAt(l);
          if (e.getEffectType() == haptics::types::EffectType::Basis) {
            e.setId(id++);
          }
        }
      }
    }
  }
}
// Without the last band of the last channel, or the whole channel or perception. What is left keeps its place.
bool shortened(Sim &s, Haptics &h) {
  int np = (int)h.getPerceptionsSize();
  if (np == 0) {
    return false;
  }
  Perception &p = h.getPerceptionAt(np - 1);
  int nc = (int)p.getChannelsSize();
  int nb = nc > 0 ? (int)p.getChannelAt(nc - 1).getBandsSize() : 0;
  uint32_t what = s.c().draw(3);
  if (what == 0 && nb > 1) {
    p.getChannelAt(nc - 1).removeBandAt(nb - 1);
    s.hit("added.band");
  } else if (what <= 1 && nc > 1) {
    p.removeChannelAt(nc - 1);
    s.hit("added.channel");
  } else if (np > 1) {
    h.removePerceptionAt(np - 1);
    s.hit("added.perception");
  } else {
    return false;
  }
  return true;
}
// Effects of the bands present in `old` from both, of all other bands only those in `now`.
CExp joined(const CExp &old, const CExp &all, const CExp &now) {
  CExp r = all;
  for (size_t i = 0; i < r.p.size(); i++) {
    for (size_t j = 0; j < r.p[i].ch.size(); j++) {
      for (size_t k = 0; k < r.p[i].ch[j].bands.size(); k++) {
        bool had = i < old.p.size() && j < old.p[i].ch.size() && k < old.p[i].ch[j].bands.size();
        if (!had) {
          r.p[i].ch[j].bands[k].effects = now.p[i].ch[j].bands[k].effects;
        }
      }
    }
  }
  return r;
}
} // namespace

void scenS08(Sim &s) {
  Case first = makeCase(s, true);
  // the versions of the experience, oldest first
  std::vector<Case> v;
  v.push_back(first);
  bool grows = !hasWavelets(first.h) && s.c().chance(40);
  if (grows) {
    nameEffects(v[0].h);
  }
  for (uint32_t i = 0, n = s.c().range(1, 3); i < n; i++) {
    Case c = v.back();
    c.h = redescribed(s, v.back().h, first.o);
    v.push_back(c);
  }
  if (grows) {
    Haptics less = v[0].h;
    grows = shortened(s, less);
    if (grows) {
      v[0].h = less;
    }
  }
  for (auto &c : v) {
    c.src = model::pruned(model::canon(c.h, model::Fmt::Stream));
    c.units = parse(s, encode(s, c.h, c.pd));
  }
  if (v[0].src.p.empty()) {
    return;
  }
  grows = grows && model::text(v[0].src) != model::text(v[1].src);
  Rx rx;
  std::vector<Window> got, since; // all windows received, those since the experience grew
  size_t ver = 0, told = 0, at = 0;
  long lost = 0;
  bool inStep = true;
  std::string history;
  auto verify = [&](const std::string &where) {
    const CExp &src = v[told].src;
    CExp want = carried(src, got);
    if (grows && told > 0) {
      want = joined(v[0].src, want, carried(src, since));
    }
    CExp g = rx.got(src);
    std::string d = model::diff(want, g);
    s.check(d.empty(), "change-not-effective",
            d.empty() ? "" : why(where + " (version " + std::to_string(told) + "):" + history + ": " + d + "\nreceived:\n" + model::text(g) + "expected:\n" + model::text(want), v[told]));
  };
  while (at < v[ver].units.size()) {
    // the sender may continue with another version at a synchronisation point
    if (ver + 1 < v.size() && v[ver].units[at].type == INIT && s.s().chance(at == 0 ? 15 : 50)) {
      long t = v[ver].units[at].start;
      if (at == 0) {
        rx.feedValid(s, v[ver].units[0].bits, "valid");
      }
      size_t j = 0;
      while (j < v[ver + 1].units.size() && !(v[ver + 1].units[j].type == INIT && v[ver + 1].units[j].start == t)) {
        j++;
      }
      if (j < v[ver + 1].units.size()) {
        ver++;
        at = j;
        s.hit("version_changes");
        history += " v" + std::to_string(ver) + "@" + std::to_string(t);
        s.log("the sender continues with version " + std::to_string(ver) + " at " + std::to_string(t));
      }
    }
    const Unit &u = v[ver].units[at];
    bool may = told == ver; // content of a version the receiver was not told of may name unknown components
    if (s.faulty && s.f().chance(8) && at > 0 && may && u.type != INIT) {
      s.hit("fault:unit_lost");
      s.log("lost unit " + std::to_string(at));
      lost += u.duration;
      inStep = lost == 0;
      at++;
      continue;
    }
    rx.feedValid(s, u.bits, "valid");
    if (u.type == INIT) {
      told = ver;
      lost = 0;
      inStep = true;
      verify("after the initialisation at unit " + std::to_string(at));
      if (s.faulty && s.f().chance(15)) {
        auto t = rx.r.time;
        rx.feedValid(s, u.bits, "repeated initialisation");
        rx.r.time = t;
        s.hit("fault:init_retransmitted");
        verify("after the initialisation was sent again");
      }
    } else if (u.type != SILENT) {
      got.push_back({u.start, u.end, inStep});
      if (ver > 0) {
        since.push_back(got.back());
      }
    }
    at++;
  }
  verify("at the end");
}

// ---------------------------------------------------------------- S07
namespace {
enum Damage { TRUNCATE, FLIP, EXTEND, SPLICE, FORGE, RANDOM, PACKETCUT, COMPOSED, NDAMAGE };
Bits damage(Sim &s, const Case &c, const Unit &u, Damage kind) {
  Bits b = u.bits;
  auto &f = s.f();
  switch (kind) {
  case TRUNCATE: {
    size_t bytes = b.size() / 8;
    size_t keep = f.chance(30) ? f.draw((uint32_t)std::min<size_t>(bytes, 14)) : f.draw((uint32_t)bytes);
    b.resize(keep * 8);
    break;
  }
  case FLIP: {
    uint32_t n = f.pick<uint32_t>({1, 2, 8, 64});
    for (uint32_t i = 0; i < n; i++) {
      size_t at = f.chance(40) ? f.draw((uint32_t)std::min<size_t>(b.size(), 200)) : f.draw((uint32_t)b.size());
      b[at] = !b[at];
    }
    break;
  }
  case EXTEND: {
    uint32_t n = f.range(1, 40) * 8;
    for (uint32_t i = 0; i < n; i++) {
      b.push_back(f.draw(2) != 0);
    }
    if (f.chance(50)) {
      setBits(b, 36, 32, (uint32_t)((b.size() - 72) / 8));
    }
    break;
  }
  case SPLICE: {
    const Unit &o = c.units[f.draw((uint32_t)c.units.size())];
    size_t cut = f.draw((uint32_t)(b.size() / 8 + 1)) * 8;
    size_t from = f.draw((uint32_t)(o.bits.size() / 8 + 1)) * 8;
    b.resize(cut);
    b.insert(b.end(), o.bits.begin() + (long)from, o.bits.end());
    break;
  }
  case FORGE: {
    // overwrite a length, count or id field with an extreme value
    uint32_t v = f.pick<uint32_t>({0xffffffffu, 0, 0x7fffffffu, 0x80000000u, 1, 0xffffu, 0xff});
    uint32_t where = f.draw(4);
    if (where == 0) {
      setBits(b, 36, 32, v);
    } else if (where == 1) {
      setBits(b, 12, 24, v);
    } else if (!u.packets.empty()) {
      const Packet &p = u.packets[f.draw((uint32_t)u.packets.size())];
      if (where == 2) {
        setBits(b, p.at + 6, 17, v);
      } else {
        size_t off = p.at + 24 + f.draw((uint32_t)std::max<size_t>(1, std::min<size_t>(p.len - 24, 160)));
        setBits(b, off, f.pick<uint32_t>({8, 16, 32}), v);
      }
    }
    break;
  }
  case RANDOM: {
    size_t n = f.draw(120) * 8;
    b.assign(n, false);
    for (size_t i = 0; i < n; i++) {
      b[i] = f.draw(2) != 0;
    }
    if (n >= 80 && f.chance(70)) {
      setBits(b, 0, 12, f.draw(4) << 6);
      setBits(b, 36, 32, (uint32_t)(n - 72) / 8);
      setBits(b, 72, 6, f.draw(12));
    }
    break;
  }
  case PACKETCUT: {
    // remove bytes from the middle and keep the declared lengths
    if (b.size() > 96) {
      size_t at = 72 + f.draw((uint32_t)((b.size() - 72) / 8)) * 8;
      size_t n = std::min<size_t>(b.size() - at, f.range(1, 16) * 8);
      b.erase(b.begin() + (long)at, b.begin() + (long)(at + n));
    }
    break;
  }
  case COMPOSED:
    return composed(s, c.units);
  default:
    break;
  }
  return b;
}
// Every keyframe and effect of a band with its position.
std::multiset<std::string> content(const model::CBand &b) {
  std::multiset<std::string> r;
  for (const auto &e : b.effects) {
    model::CEff one = e;
    one.kfs.clear();
    r.insert(one.str(false));
    for (const auto &k : e.kfs) {
      model::CEff x = one;
      x.kfs.push_back(k);
      r.insert(x.str(false));
    }
  }
  return r;
}
} // namespace

void scenS07(Sim &s) {
  Case c = makeCase(s, s.c().chance(40));
  if (!s.faulty) {
    Rx rx;
    for (const auto &u : c.units) {
      rx.feedValid(s, u.bits, "valid");
    }
    expectEqual(s, c, rx, c.src, "not-delivered", "no damage");
    return;
  }
  bool onlyCuts = s.f().chance(40);
  uint32_t rate = s.f().pick<uint32_t>({15, 40, 80});
  static const char *names[] = {"fault:unit_truncated", "fault:bits_flipped", "fault:unit_extended",
                                "fault:unit_spliced",   "fault:field_forged", "fault:random_unit",
                                "fault:bytes_removed", "fault:unit_composed"};
  Rx rx;
  std::vector<Window> got;
  std::vector<std::vector<Window>> lo, hi;
  auto bands = bandIndex(c.src);
  std::vector<Window> certain, possible;
  bool inStep = true;
  bool damagedOther = false;
  size_t begin = 0;
  if (!onlyCuts && s.f().chance(20)) {
    begin = 0; // damage may hit the very first unit
  } else {
    rx.feedValid(s, c.units[0].bits, "valid");
    begin = 1;
  }
  for (size_t i = begin; i < c.units.size(); i++) {
    const Unit &u = c.units[i];
    if (s.f().chance(rate)) {
      auto kind = onlyCuts ? TRUNCATE : (Damage)s.f().draw(NDAMAGE);
      Bits b = damage(s, c, u, kind);
      s.hit(names[kind]);
      s.logHash("damaged " + std::to_string(i) + " kind " + std::to_string(kind), packBits(b));
      std::string before;
      std::vector<std::vector<model::CEff>> old;
      CExp pre = rx.got(c.src);
      bool ok = false;
      env::heap.cap = env::heap.live + (600ULL << 20);
      try {
        ok = rx.feed(b);
      } catch (const std::exception &e) {
        s.fail("damaged-unit-throws", std::string("reading a damaged unit threw ") + e.what() + "\n" + brief(c));
      }
      s.hit(ok ? "damaged_accepted" : "damaged_rejected");
      size_t declared = b.size() >= 72 ? 72 + (size_t)bitsAt(b, 36, 32) * 8 : (size_t)-1;
      if (b.size() < declared) {
        s.check(!ok, "short-unit-accepted",
                "a unit of " + std::to_string(b.size() / 8) + " bytes that declares " +
                    std::to_string(b.size() >= 72 ? declared / 8 : 9) + " was accepted (unit " +
                    std::to_string(i) + ")\n" + brief(c));
      }
      // what was there before is still there
      CExp post = rx.got(c.src);
      for (size_t p = 0; p < pre.p.size(); p++) {
        s.check(p < post.p.size(), "damage-loses-content", "a perception disappeared");
        for (size_t k = 0; k < pre.p[p].ch.size(); k++) {
          s.check(k < post.p[p].ch.size(), "damage-loses-content", "a channel disappeared");
          for (size_t j = 0; j < pre.p[p].ch[k].bands.size(); j++) {
            s.check(j < post.p[p].ch[k].bands.size(), "damage-loses-content", "a band disappeared");
            s.check(post.p[p].ch[k].bands[j].effects.size() >= pre.p[p].ch[k].bands[j].effects.size(),
                    "damage-loses-content", why("an effect disappeared", c));
            if (post.p[p].ch[k].bands[j].meta == pre.p[p].ch[k].bands[j].meta) {
              auto old = content(pre.p[p].ch[k].bands[j]), now = content(post.p[p].ch[k].bands[j]);
              s.check(std::includes(now.begin(), now.end(), old.begin(), old.end()), "damage-alters-content",
                      why("an effect or keyframe received before is gone or altered\nreceived:\n" + model::text(post), c));
            }
          }
        }
      }
      if (kind == TRUNCATE && b.size() < u.bits.size()) {
        if (u.type == TEMPORAL) {
          possible.push_back({u.start, u.end, inStep});
        }
        // the clock is only certain again at the next initialisation
        inStep = false;
      } else {
        damagedOther = true;
        inStep = false;
      }
      continue;
    }
    if (u.type == INIT) {
      inStep = true;
    }
    if (onlyCuts) {
      rx.feedValid(s, u.bits, "unit following a damaged one:");
      if (u.type == TEMPORAL) {
        certain.push_back({u.start, u.end, inStep});
        possible.push_back({u.start, u.end, inStep});
      }
    } else {
      try {
        rx.feed(u.bits);
      } catch (const std::exception &e) {
        s.fail("unit-after-damage-throws", std::string("a valid unit after damage threw ") + e.what());
      }
    }
  }
  if (!onlyCuts || damagedOther) {
    return;
  }
  // Cut units only: everything carried by intact units is there; packets of cut units may be.
  CExp g = rx.got(c.src);
  std::string dm = model::diffMeta(c.src, g);
  s.check(dm.empty(), "cut-changes-metadata", dm.empty() ? "" : why(dm, c));
  CExp l = carried(c.src, certain), h = carried(c.src, possible);
  for (size_t p = 0; p < c.src.p.size(); p++) {
    for (size_t k = 0; k < c.src.p[p].ch.size(); k++) {
      for (size_t j = 0; j < c.src.p[p].ch[k].bands.size(); j++) {
        // positions are compared in S02 and S03; here: which content is present, as keyframe sets
        auto flat = [](const std::vector<model::CEff> &v) {
          std::multiset<std::string> r;
          for (const auto &e : v) {
            model::CEff one = e;
            one.kfs.clear();
            one.pos = 0;
            if (e.kfs.empty()) {
              r.insert(one.str(false));
            }
            for (const auto &q : e.kfs) {
              model::CEff x = one;
              x.kfs.push_back(q);
              r.insert(x.str(false));
            }
          }
          return r;
        };
        auto G = flat(g.p[p].ch[k].bands[j].effects), L = flat(l.p[p].ch[k].bands[j].effects),
             H = flat(h.p[p].ch[k].bands[j].effects);
        s.check(std::includes(G.begin(), G.end(), L.begin(), L.end()), "cut-loses-content",
                why("content of an intact unit is missing in perception " + std::to_string(p) + " channel " +
                        std::to_string(k) + " band " + std::to_string(j) + "\nreceived:\n" + model::text(g), c));
        s.check(std::includes(H.begin(), H.end(), G.begin(), G.end()), "cut-invents-content",
                why("content that no unit carried in perception " + std::to_string(p) + " channel " +
                        std::to_string(k) + " band " + std::to_string(j) + "\nreceived:\n" + model::text(g), c));
      }
    }
  }
  (void)lo;
  (void)hi;
  (void)got;
}
