#include "stream.h"
#include <IOHaptics/include/IOBinaryFields.h>
#include <algorithm>
#include <sstream>

namespace link {
using model::CBand;
using model::CEff;
using model::CExp;

uint32_t bitsAt(const Bits &b, size_t at, size_t n) {
  uint32_t v = 0;
  for (size_t i = 0; i < n; i++) {
    v = (v << 1) | (at + i < b.size() && b[at + i] ? 1U : 0U);
  }
  return v;
}
void setBits(Bits &b, size_t at, size_t n, uint32_t v) {
  for (size_t i = 0; i < n && at + i < b.size(); i++) {
    b[at + i] = ((v >> (n - 1 - i)) & 1U) != 0;
  }
}
std::string packBits(const Bits &b) {
  std::string r((b.size() + 7) / 8, '\0');
  for (size_t i = 0; i < b.size(); i++) {
    if (b[i]) {
      r[i / 8] = (char)(r[i / 8] | (1 << (7 - i % 8)));
    }
  }
  return r;
}

std::vector<Unit> parse(sim::Sim &s, const std::vector<Bits> &units) {
  std::vector<Unit> r;
  long now = 0;
  for (const auto &b : units) {
    std::string where = "unit " + std::to_string(r.size());
    s.check(b.size() >= 72 && b.size() % 8 == 0, "framing", where + " is shorter than its header");
    Unit u;
    u.bits = b;
    u.type = (int)bitsAt(b, 0, 6);
    u.sync = bitsAt(b, 6, 2) == 0;
    u.duration = bitsAt(b, 12, 24);
    size_t len = bitsAt(b, 36, 32);
    s.check(len * 8 + 72 == b.size(), "framing", where + " declares a length it does not have");
    s.check(u.type >= 0 && u.type <= 3, "framing", where + " has an unknown type");
    size_t at = 72;
    while (at < b.size()) {
      Packet p;
      s.check(at + 24 <= b.size(), "framing", where + " ends inside a packet header");
      p.type = (int)bitsAt(b, at, 6);
      size_t pl = bitsAt(b, at + 6, 17);
      p.at = at;
      p.len = 24 + pl * 8;
      s.check(at + p.len <= b.size(), "framing", where + " ends inside a packet");
      if (p.type == P_DATA) {
        p.dau = b[at + 24];
        p.perc = (int)bitsAt(b, at + 25, 8);
        p.chan = (int)bitsAt(b, at + 33, 16);
        p.band = (int)bitsAt(b, at + 49, 8);
      }
      if (p.type == 11) {
        u.initTime = bitsAt(b, at + 24, 32);
      }
      u.packets.push_back(p);
      at += p.len;
    }
    if (u.type == INIT) {
      s.check(u.initTime >= 0, "framing", where + " is an initialisation unit without timing");
      s.check(u.initTime == now, "sender-clock",
              where + " announces time " + std::to_string(u.initTime) + " at sender time " +
                  std::to_string(now));
    }
    u.start = now;
    now += u.duration;
    u.end = now;
    r.push_back(std::move(u));
  }
  return r;
}

Bits shufflePackets(sim::Sim &s, const Unit &u) {
  std::map<int, std::vector<const Packet *>> byBand;
  for (const auto &p : u.packets) {
    if (p.type != P_DATA) {
      return u.bits;
    }
    byBand[p.band].push_back(&p);
  }
  Bits r(u.bits.begin(), u.bits.begin() + 72);
  bool moved = false;
  size_t n = 0;
  while (!byBand.empty()) {
    auto it = byBand.begin();
    std::advance(it, s.s().draw((uint32_t)byBand.size()));
    const Packet *p = it->second.front();
    moved = moved || p != &u.packets[n];
    n++;
    it->second.erase(it->second.begin());
    if (it->second.empty()) {
      byBand.erase(it);
    }
    r.insert(r.end(), u.bits.begin() + (long)p->at, u.bits.begin() + (long)(p->at + p->len));
  }
  if (moved) {
    s.hit("fault:packets_reordered");
  }
  return r;
}

Bits composed(sim::Sim &s, const std::vector<Unit> &from) {
  auto &f = s.f();
  Bits body;
  auto put = [](Bits &b, uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--) {
      b.push_back(((v >> i) & 1U) != 0);
    }
  };
  auto extreme = [&]() { return f.pick<uint32_t>({0, 1, 1000, 0xffffffffU, 0x7fffffffU, 0x80000000U, 0xffffffU, f.draw(1U << 31)}); };
  const bool crowd = f.chance(3); // very many, very small packets
  const uint32_t n = crowd ? f.range(4000, 20000) : f.range(1, 6);
  const uint32_t crowdType = crowd ? f.pick<uint32_t>({0, 8, 7, 1, 6}) : 0;
  for (uint32_t i = 0; i < n; i++) {
    uint32_t type = crowd ? crowdType : f.pick<uint32_t>({0, 11, 5, 6, 4, 3, 2, 1, 7, 8, 9, 10, f.draw(64)});
    Bits p;
    std::vector<const Unit *> holders;
    const bool take = !crowd && type != 0 && f.chance(60);
    for (size_t k = 0; take && k < from.size(); k++) {
      for (const auto &q : from[k].packets) {
        if (q.type == (int)type) {
          holders.push_back(&from[k]);
          break;
        }
      }
    }
    if (!holders.empty()) {
      const Unit *u = holders[f.draw((uint32_t)holders.size())];
      std::vector<const Packet *> ps;
      for (const auto &q : u->packets) {
        if (q.type == (int)type) {
          ps.push_back(&q);
        }
      }
      const Packet *q = ps[f.draw((uint32_t)ps.size())];
      p.assign(u->bits.begin() + (long)q->at + 24, u->bits.begin() + (long)(q->at + q->len));
      for (uint32_t k = f.draw(3); k > 0 && !p.empty(); k--) {
        setBits(p, f.draw((uint32_t)p.size()), f.pick<size_t>({8, 1, 16, 32}), extreme());
      }
    } else if (type == 0) {
      put(p, crowd ? i : extreme(), 32);
    } else if (type == 11) {
      put(p, extreme(), 32);
      put(p, extreme(), 32);
      put(p, extreme(), 24);
      put(p, extreme(), 24);
      put(p, f.draw(2), 8);
    } else if (crowd) {
      p.assign(16, false);
    } else {
      for (uint32_t k = f.draw(60); k > 0; k--) {
        put(p, f.draw(256), 8);
      }
    }
    while (p.size() % 8 != 0) {
      p.push_back(false);
    }
    put(body, type, 6);
    put(body, p.size() / 8, 17);
    put(body, 0, 1);
    body.insert(body.end(), p.begin(), p.end());
  }
  s.hit(crowd ? "fault:composed_crowded" : "fault:composed_unit");
  Bits u;
  put(u, f.pick<uint32_t>({INIT, TEMPORAL, SPATIAL, SILENT, f.draw(64)}), 6);
  put(u, f.pick<uint32_t>({0, 1, 2, 3}), 2);
  put(u, f.draw(16), 4);
  put(u, f.pick<uint32_t>({128, 0, 0xffffff, f.draw(1U << 24)}), 24);
  put(u, body.size() / 8, 32);
  put(u, 0, 4);
  u.insert(u.end(), body.begin(), body.end());
  return u;
}
std::vector<Unit> unitsOf(sim::Sim &s, const std::string &bytes) {
  std::vector<Bits> units;
  for (size_t at = 0; at + 9 <= bytes.size();) {
    Bits b;
    auto take = [&](size_t to) {
      for (; at < to && at < bytes.size(); at++) {
        for (int k = 7; k >= 0; k--) {
          b.push_back((((unsigned char)bytes[at] >> k) & 1) != 0);
        }
      }
    };
    take(at + 9);
    take(at + bitsAt(b, 36, 32));
    units.push_back(b);
  }
  return parse(s, units);
}

bool Rx::feed(const Bits &unit) {
  Bits copy = unit;
  return IOStream::readMIHSUnit(copy, r, crc);
}
bool Rx::feedValid(sim::Sim &s, const Bits &unit, const char *what) {
  bool ok = false;
  try {
    ok = feed(unit);
  } catch (const std::exception &e) {
    s.fail("valid-unit-throws", std::string(what) + " unit: reading it threw " + e.what());
  }
  s.check(ok, "valid-unit-rejected", std::string(what) + " unit was rejected");
  return ok;
}
CExp Rx::got(const CExp &source) {
  CExp g = model::canon(r.haptic, model::Fmt::Stream);
  g.timescale = r.timescale;
  model::forgetIds(g, source);
  return g;
}

long firstTime(const CEff &e) {
  if (e.isWav || e.type != 0 || e.kfs.empty()) {
    return e.pos;
  }
  return e.pos + e.kfs.front().pos;
}

CExp carried(const CExp &src, const std::vector<Window> &w) {
  CExp r = src;
  for (auto &p : r.p) {
    for (auto &c : p.ch) {
      for (auto &b : c.bands) {
        std::vector<CEff> out;
        bool wavOut = false;
        for (const auto &e : b.effects) {
          CEff x = e;
          x.kfs.clear();
          bool any = false, step = true;
          for (const auto &win : w) {
            if (p.spatial) {
              if (win.start == 0) {
                x.kfs = e.kfs;
                any = true;
                step = win.inStep;
              }
              continue;
            }
            if (e.isWav || e.type != 0) {
              if (e.pos >= win.start && e.pos < win.end) {
                if (!any) {
                  step = win.inStep;
                }
                any = true;
              }
              continue;
            }
            for (const auto &k : e.kfs) {
              long t = e.pos + k.pos;
              if (t >= win.start && t < win.end) {
                if (!any) {
                  step = win.inStep;
                }
                any = true;
                x.kfs.push_back(k);
              }
            }
          }
          if (!any) {
            continue;
          }
          if (e.isWav) {
            wavOut = wavOut || !step;
            step = !wavOut;
          }
          x.anyPos = !step;
          out.push_back(x);
        }
        b.effects = out;
      }
    }
  }
  return r;
}

std::vector<Bits> encode(sim::Sim &s, haptics::types::Haptics &h, int pd) {
  std::vector<Bits> units;
  bool ok = false;
  try {
    ok = IOStream::writeUnits(h, units, pd);
  } catch (const std::exception &e) {
    s.fail("encoder-throws", std::string("writeUnits threw ") + e.what());
  }
  s.check(ok, "encoder-fails", "writeUnits reported failure");
  return units;
}

std::string brief(const Case &c) {
  std::ostringstream o;
  o << "packet duration " << c.pd << "\n" << model::text(c.src) << "units:\n";
  for (size_t i = 0; i < c.units.size(); i++) {
    const auto &u = c.units[i];
    static const char *n[] = {"init", "temporal", "spatial", "silent"};
    o << "  #" << i << " " << n[u.type & 3] << " [" << u.start << "," << u.end << ")"
      << (u.sync ? " sync" : " dependent") << " packets:";
    for (const auto &p : u.packets) {
      o << " " << p.type;
      if (p.type == P_DATA) {
        o << (p.dau ? "d" : "i") << "(" << p.perc << "/" << p.chan << "/" << p.band << ")";
      }
    }
    o << "\n";
  }
  return o.str();
}

Case makeCase(sim::Sim &s, bool syncs) {
  Case c;
  c.o.fmt = model::Fmt::Stream;
  c.o.packetDuration = model::genPacketDuration(s.c());
  c.o.windows = (int)s.c().range(1, s.thorough ? 16 : 8);
  c.o.composites = true;
  c.o.big = s.thorough && s.c().chance(25);
  c.o.syncs = false;
  c.pd = c.o.packetDuration;
  c.h = model::generate(s, c.o);
  if (syncs) {
    std::set<long> at;
    for (uint32_t i = 0, n = s.c().range(1, 4); i < n; i++) {
      long t = (long)s.c().range(0, (uint32_t)c.o.windows) * c.pd;
      if (s.c().chance(15)) {
        t += s.c().draw((uint32_t)c.pd);
      }
      at.insert(t);
    }
    std::vector<long> order(at.begin(), at.end());
    for (auto t : order) {
      haptics::types::Sync sy((int)t);
      c.h.addSync(sy);
    }
  }
  c.src = model::pruned(model::canon(c.h, model::Fmt::Stream));
  c.units = parse(s, encode(s, c.h, c.pd));
  uint64_t shape = sim::fnv(std::to_string(c.pd));
  for (const auto &u : c.units) {
    char k = (char)('0' + u.type + (u.sync ? 4 : 0));
    shape = sim::fnv(&k, 1, shape);
    shape = sim::fnv(&u.duration, sizeof u.duration, shape);
    s.logHash("unit", packBits(u.bits));
    static const char *n[] = {"units.init", "units.temporal", "units.spatial", "units.silent"};
    s.hit(n[u.type & 3]);
    for (const auto &p : u.packets) {
      char q[3] = {(char)p.band, (char)p.type, (char)p.dau};
      shape = sim::fnv(q, 3, shape);
      if (p.type == P_DATA) {
        s.hit(p.dau ? "packets.dependent" : "packets.independent");
      }
    }
  }
  s.cover(shape);
  if (!c.units.empty()) {
    s.simTime += (uint64_t)c.units.back().end;
  }
  if (s.trace) {
    s.log(brief(c));
  }
  return c;
}
} // namespace link
