#include "store.h"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <algorithm>
#include <cstring>
#include <sstream>

namespace store {
using sim::Sim;
using namespace haptics;

const char *name(Kind k) {
  static const char *n[] = {"stream", "binary", "json", "ohm", "ahap", "ivs"};
  return n[k];
}
const char *name(Res r) {
  return r == Res::OK ? "success" : r == Res::FAIL ? "failure" : "an exception";
}

namespace {
std::string word(sim::Choices &c, uint32_t max) {
  std::string r;
  uint32_t n = c.pick<uint32_t>({0, 1, max, max + 5, c.draw(max + 1)});
  for (uint32_t i = 0; i < n; i++) {
    r += (char)c.pick<uint32_t>({97 + c.draw(26), 32 + c.draw(95), 128 + c.draw(128)});
  }
  return r;
}
std::string dec(sim::Choices &c, uint32_t maxMilli) {
  char b[32];
  uint32_t v = c.draw(maxMilli + 1);
  snprintf(b, sizeof b, "%u.%03u", v / 1000, v % 1000);
  return b;
}

OHMData genOhm(Sim &s) {
  auto &c = s.c();
  std::string head = "OHM ", desc = word(c, 32);
  OHMData o(head, (short)c.pick<uint32_t>({1, 0, 2, c.draw(32768)}), desc);
  for (uint32_t i = 0, n = c.chance(15) ? c.range(0, 40) : c.draw(4); i < n; i++) {
    OHMData::HapticElementMetadata e;
    e.elementFilename = word(c, 64);
    e.elementDescription = word(c, 32);
    uint32_t m = c.draw(c.chance(10) ? 60 : 4);
    e.numHapticChannels = (short)m;
    for (uint32_t k = 0; k < m; k++) {
      OHMData::HapticChannelMetadata ch;
      ch.channelDescription = word(c, 32);
      ch.gain = (float)((int)c.draw(20000) - 10000) / 64;
      ch.bodyPartMask = (OHMData::Body)c.pick<uint32_t>({0, 0xffffffffu, 0x80000000u, 0xff, c.draw(0xffffffffu)});
      e.channelsMetadata.push_back(ch);
    }
    o.addHapticElementMetadata(e);
  }
  return o;
}

std::string genAhap(Sim &s) {
  auto &c = s.c();
  std::string o = "{\"Version\":1.0,\"Metadata\":{\"Project\":\"p\"},\"Pattern\":[";
  bool first = true;
  auto sep = [&] {
    if (!first) {
      o += ",";
    }
    first = false;
  };
  for (uint32_t i = 0, n = c.chance(10) ? c.range(30, 90) : c.draw(8); i < n; i++) {
    sep();
    uint32_t k = c.draw(4);
    if (k == 3) {
      o += std::string("{\"ParameterCurve\":{\"ParameterID\":\"") +
           (c.chance(50) ? "HapticSharpnessControl" : "HapticIntensityControl") + "\",\"Time\":" + dec(c, 500) +
           ",\"ParameterCurveControlPoints\":[";
      uint32_t t = 0;
      for (uint32_t q = 0, m = c.range(1, 5); q < m; q++) {
        t += 1 + c.draw(900);
        char b[64];
        snprintf(b, sizeof b, "%s{\"Time\":%u.%03u,\"ParameterValue\":", q ? "," : "", t / 1000, t % 1000);
        o += b + dec(c, 1000) + "}";
      }
      o += "]}}";
      continue;
    }
    bool cont = k == 1;
    o += std::string("{\"Event\":{\"Time\":") + dec(c, 4000) + ",\"EventType\":\"" +
         (cont ? "HapticContinuous" : "HapticTransient") + "\"";
    if (cont) {
      o += ",\"EventDuration\":" + dec(c, 2000);
    }
    o += ",\"EventParameters\":[";
    bool a = c.chance(80), b = c.chance(80);
    if (a) {
      o += "{\"ParameterID\":\"HapticIntensity\",\"ParameterValue\":" + dec(c, 1000) + "}";
    }
    if (b) {
      o += std::string(a ? "," : "") + "{\"ParameterID\":\"HapticSharpness\",\"ParameterValue\":" + dec(c, 1000) + "}";
    }
    o += "]}}";
  }
  return o + "]}";
}

std::string genIvs(Sim &s) {
  auto &c = s.c();
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o << "<?xml version=\"1.0\"?>\n<ivs-file last-modified=\"2024-01-31\"><effects>\n";
  uint32_t n = c.range(1, 4);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t t = c.draw(3);
    o << "<basis-effect name=\"e" << i << "\" type=\"" << (t == 0 ? "periodic" : t == 1 ? "magsweep" : "other")
      << "\" duration=\"" << c.range(1, 2000) << "\" magnitude=\"" << c.draw(10001) << "\"";
    if (t == 0) {
      o << " waveform=\"" << c.pick({"sine", "square", "triangle", "sawtooth-up", "sawtooth-down"}) << "\" period=\""
        << c.range(1, 200) << "\"";
    }
    if (c.chance(40)) {
      o << " attack-time=\"" << c.range(1, 900) << "\" attack-level=\"" << c.draw(10001) << "\"";
    }
    if (c.chance(40)) {
      o << " fade-time=\"" << c.range(1, 900) << "\" fade-level=\"" << c.draw(10001) << "\"";
    }
    o << "/>\n";
  }
  for (uint32_t i = 0, m = c.range(1, 2); i < m; i++) {
    o << "<timeline-effect name=\"t" << i << "\">\n";
    for (uint32_t k = 0, q = c.chance(10) ? c.range(40, 120) : c.draw(7); k < q; k++) {
      o << "<launch-event time=\"" << c.draw(4000) << "\" effect=\"e" << c.draw(n) << "\"";
      if (c.chance(30)) {
        o << " duration-override=\"" << c.range(1, 1500) << "\"";
      }
      if (c.chance(30)) {
        o << " magnitude-override=\"" << c.draw(10001) << "\"";
      }
      o << "/>\n";
    }
    if (c.chance(30)) {
      o << "<repeat-event time=\"" << c.draw(2000) << "\" duration=\"" << c.range(1, 2000) << "\" count=\"" << c.draw(4)
        << "\"/>\n";
    }
    o << "</timeline-effect>\n";
  }
  o << "</effects></ivs-file>";
  return o.str();
}
} // namespace

std::string ohmText(OHMData &o, bool stored) {
  auto cut = [&](std::string t, size_t n) {
    if (stored) {
      t = t.substr(0, n);
      t.erase(t.find_last_not_of('\0') + 1);
    }
    return t;
  };
  std::ostringstream r;
  r.imbue(std::locale::classic());
  r << o.getHeader() << "|" << o.getVersion() << "|" << cut(o.getDescription(), 32) << "\n";
  for (size_t i = 0; i < o.getHapticElementMetadataSize(); i++) {
    auto &e = o.getHapticElementMetadataAt((int)i);
    r << "element '" << cut(e.elementFilename, 64) << "' '" << cut(e.elementDescription, 32) << "' "
      << e.numHapticChannels << "\n";
    for (auto &c : e.channelsMetadata) {
      uint32_t g;
      memcpy(&g, &c.gain, 4);
      r << "  channel '" << cut(c.channelDescription, 32) << "' gain#" << std::hex << g << " mask "
        << (uint32_t)c.bodyPartMask << std::dec << "\n";
    }
  }
  return r.str();
}

Kind drawKind(Sim &s, bool withImports) {
  static const Kind k[] = {STREAM, BINARY, JSON, OHM, AHAP, IVS};
  return k[s.c().draw(withImports ? 6 : 4)];
}

namespace {
void makeRenderable(Haptics &h) {
  using namespace haptics::types;
  h.setTimescale(1000);
  for (uint32_t p = 0; p < h.getPerceptionsSize(); p++) {
    Perception &pe = h.getPerceptionAt((int)p);
    for (uint32_t ci = 0; ci < pe.getChannelsSize(); ci++) {
      Channel &ch = pe.getChannelAt((int)ci);
      if (ch.getSampleCount().value_or(0) > 400) {
        ch.setSampleCount(std::nullopt);
      }
      ch.setFrequencySampling(ch.getSampleCount().has_value() ? std::optional<uint32_t>(1000) : std::nullopt);
      for (int b = (int)ch.getBandsSize() - 1; b >= 0; b--) {
        Band &ba = ch.getBandAt(b);
        std::vector<Effect> keep;
        if (ba.getBandType() == BandType::Curve) {
          ch.removeBandAt(b);
          continue;
        }
        for (uint32_t e = 0; e < ba.getEffectsSize(); e++) {
          Effect ef = ba.getEffectAt((int)e);
          if (ba.getBandType() == BandType::WaveletWave) {
            keep.push_back(ef);
            continue;
          }
          if (ef.getEffectType() != EffectType::Basis || ef.getKeyframesSize() == 0 || ef.getPosition() < 0 ||
              ef.getPosition() > 100000) {
            continue;
          }
          int last = -1;
          for (uint32_t k = 0; k < ef.getKeyframesSize(); k++) {
            Keyframe kf = ef.getKeyframeAt((int)k);
            int pos = std::max(last + 1, kf.getRelativePosition().value_or(0));
            Keyframe full(pos, kf.getAmplitudeModulation().value_or(0.5), kf.getFrequencyModulation().value_or(60));
            ef.replaceKeyframeAt((int)k, full);
            last = pos;
          }
          if (ef.getKeyframesSize() == 1) {
            ef.addKeyframe(last + 10, 0.25, 80);
          }
          keep.push_back(ef);
        }
        while (ba.getEffectsSize() > 0) {
          ba.removeEffectAt(0);
        }
        std::stable_sort(keep.begin(), keep.end(), [](const Effect &x, const Effect &y) { return x.getPosition() < y.getPosition(); });
        for (auto &e : keep) {
          ba.addEffect(e);
        }
        if (keep.empty()) {
          ch.removeBandAt(b);
        }
      }
    }
  }
}
} // namespace
Doc genDoc(Sim &s, Kind k, const GenDoc &g) {
  auto &c = s.c();
  Doc d;
  d.kind = k;
  if (k == OHM) {
    d.ohm = genOhm(s);
    d.ohmText = ohmText(d.ohm, true);
    return d;
  }
  if (k == AHAP || k == IVS) {
    d.ts = c.pick<unsigned>({1000, 8000, 100});
    d.source = k == AHAP ? genAhap(s) : genIvs(s);
    return d;
  }
  model::GenOpts o;
  o.fmt = k == STREAM ? model::Fmt::Stream : k == BINARY ? model::Fmt::Binary : model::Fmt::Json;
  d.pd = model::genPacketDuration(c);
  if (k != STREAM && !g.far) { // may be saved as a stream of short packets
    d.pd = std::min(d.pd, 4096);
  }
  o.packetDuration = d.pd;
  o.windows = (int)c.range(1, 8);
  o.wavelet = g.wavelet;
  o.far = g.far;
  o.composites = g.composites && k != JSON;
  o.big = c.chance(10);
  o.portable = g.portable;
  o.syncs = k == JSON && !g.portable && c.chance(40);
  if (g.bulk && c.chance(8)) {
    o.bulk = (int)c.range(200, s.thorough ? 2500 : 1200);
    if (k == STREAM) { // the reader takes quadratic time in the size of a packet
      o.bulk = std::min(o.bulk, 900);
      o.windows = (int)c.range(24, 60);
    }
  }
  d.h = model::generate(s, o);
  if (g.renderable) {
    makeRenderable(d.h);
  }
  if (g.validDate) {
    std::string t = "2024-01-31T12:00:00";
    d.h.setDate(t);
  }
  if (k == STREAM && c.chance(25)) {
    for (uint32_t i = 0, n = c.range(1, 3); i < n; i++) {
      types::Sync sy((int)c.range(0, (uint32_t)o.windows) * d.pd);
      d.h.addSync(sy);
    }
  }
  d.src = model::canon(d.h, o.fmt);
  if (k == STREAM) {
    d.src = model::pruned(d.src);
  }
  return d;
}

namespace {
struct Classic { // the dumps must not depend on the simulated locale
  std::locale old = std::locale::global(std::locale::classic());
  ~Classic() { std::locale::global(old); }
};
} // namespace
std::string Doc::dump() {
  Classic q;
  return kind == OHM ? store::ohmText(ohm, false) : kind >= AHAP ? source : model::fullDump(h);
}
std::string Doc::brief() {
  Classic q;
  std::string o = std::string(name(kind)) + " document";
  if (kind == STREAM) {
    o += ", packet duration " + std::to_string(pd);
  }
  return o + "\n" + (kind == OHM ? store::ohmText(ohm, false) : kind >= AHAP ? source : model::text(src));
}

namespace {
template <class F> Call guarded(uint64_t failAlloc, bool &ok, F f) {
  Call r;
  ok = false;
  sim::budget();
  env::arm(failAlloc);
  try {
    ok = f();
  } catch (const std::exception &e) {
    env::disarm();
    r.res = Res::THREW;
    r.what = e.what();
    r.allocs = env::heap.count;
    r.allocFailed = env::heap.failed;
    return r;
  }
  env::disarm();
  r.allocs = env::heap.count;
  r.allocFailed = env::heap.failed;
  r.res = ok ? Res::OK : Res::FAIL;
  return r;
}
} // namespace

Call save(Doc &d, const std::string &path, uint64_t failAlloc) {
  bool ok;
  return guarded(failAlloc, ok, [&]() -> bool { return rawSave(d, path); });
}
Call load(const Doc &d, const std::string &path, Loaded &out, uint64_t failAlloc) {
  bool ok;
  return guarded(failAlloc, ok, [&]() -> bool { return rawLoad(d, path, out); });
}
bool rawSave(Doc &d, const std::string &path) {
  switch (d.kind) {
  case STREAM:
    return io::IOStream::writeFile(d.h, path, d.pd);
  case BINARY:
    return io::IOBinary::writeFile(d.h, path);
  case JSON:
    return io::IOJson::writeFile(d.h, path);
  default:
    return d.ohm.writeFile(path);
  }
}
bool rawLoad(const Doc &d, const std::string &path, Loaded &out) {
    std::string p = path;
    switch (d.kind) {
    case STREAM:
      return io::IOStream::readFile(p, out.h);
    case BINARY:
      return io::IOBinary::loadFile(p, out.h);
    case JSON:
      return io::IOJson::loadFile(p, out.h);
    case OHM:
      return out.ohm.loadFile(p);
    case AHAP:
      return encoder::AhapEncoder::encode(p, out.p, d.ts) == EXIT_SUCCESS;
    default:
      return encoder::IvsEncoder::encode(p, out.p, d.ts) == EXIT_SUCCESS;
    }
}
std::string dumpLoaded(Kind k, Loaded &l) {
  Classic q;
  if (k == OHM) {
    return store::ohmText(l.ohm, false);
  }
  if (k >= AHAP) {
    Haptics h;
    h.addPerception(l.p);
    return model::fullDump(h);
  }
  return model::fullDump(l.h);
}

std::string compare(Doc &d, Loaded &l) {
  switch (d.kind) {
  case STREAM: {
    model::CExp got = model::pruned(model::canon(l.h, model::Fmt::Stream));
    model::forgetIds(got, d.src);
    std::string e = model::diff(d.src, got);
    return e.empty() ? model::disorder(got) : e;
  }
  case BINARY:
    return model::diffOrdered(d.src, model::canon(l.h, model::Fmt::Binary));
  case JSON:
    return model::diffOrdered(d.src, model::canon(l.h, model::Fmt::Json), true);
  case OHM: {
    std::string g = store::ohmText(l.ohm, false);
    return g == d.ohmText ? "" : "OHM metadata:\n  want " + d.ohmText + "\n  got  " + g;
  }
  default:
    return "";
  }
}

World makeWorld(Sim &s, Kind k, const GenDoc &g) {
  World w;
  w.d = genDoc(s, k, g);
  w.path = std::string(env::ROOT) + "doc." + name(k);
  env::diskReset(s);
  env::diskBegin({});
  s.hit(std::string("kind:") + name(k));
  if (w.d.savable()) {
    Call c = save(w.d, w.path);
    if (c.res != Res::OK) {
      w.why = std::string("healthy save ended with ") + name(c.res) + " " + c.what;
      return w;
    }
    w.bytes = env::disk.files[w.path];
  } else {
    w.bytes = w.d.source;
    env::disk.files[w.path] = w.bytes;
  }
  Loaded l;
  Call c = load(w.d, w.path, l);
  if (c.res != Res::OK) {
    w.why = std::string("healthy load ended with ") + name(c.res) + " " + c.what;
    return w;
  }
  w.dump = dumpLoaded(k, l);
  w.ok = true;
  s.logHash(std::string("world ") + name(k), w.bytes);
  s.cover(sim::fnv(w.bytes));
  s.simTime += w.bytes.size();
  return w;
}

env::DiskPlan benign(Sim &s) {
  env::DiskPlan p;
  p.frag = s.f().chance(70);
  p.eintr = s.f().chance(50);
  return p;
}
env::DiskPlan writeFaults(Sim &s, size_t size) {
  auto &f = s.f();
  env::DiskPlan p = benign(s);
  switch (f.draw(8)) {
  case 0:
    break;
  case 1:
    p.failOpen = 0;
    p.openErrno = f.pick({13, 28, 24, 30});
    break;
  case 2:
    p.failClose = 0;
    break;
  case 3:
    p.failClose = 0;
    p.closeLosesTail = true;
    break;
  default:
    p.failWriteAt = (int64_t)f.pick<uint32_t>({0, (uint32_t)size - 1, f.draw((uint32_t)size), f.draw((uint32_t)size), f.draw((uint32_t)size)});
    p.writeErrno = f.pick({28, 5});
    break;
  }
  return p;
}
env::DiskPlan readFaults(Sim &s, size_t size) {
  auto &f = s.f();
  env::DiskPlan p = benign(s);
  switch (f.draw(8)) {
  case 0:
    break;
  case 1:
    p.failOpen = 0;
    p.openErrno = f.pick({13, 24, 5});
    break;
  case 2:
    p.failSeek = (int)f.draw(4);
    break;
  case 3:
    p.failClose = 0;
    break;
  default:
    p.failReadAt = (int64_t)f.draw((uint32_t)size + 1);
    break;
  }
  return p;
}
std::string planText(const env::DiskPlan &p) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o << "faults:";
  if (p.frag) o << " short transfers";
  if (p.eintr) o << " interrupted calls";
  if (p.failOpen >= 0) o << " open fails (errno " << p.openErrno << ")";
  if (p.failWriteAt >= 0) o << " write fails after " << p.failWriteAt << " bytes (errno " << p.writeErrno << ")";
  if (p.failReadAt >= 0) o << " read fails after " << p.failReadAt << " bytes";
  if (p.failSeek >= 0) o << " seek #" << p.failSeek << " fails";
  if (p.failClose >= 0) o << " close fails" << (p.closeLosesTail ? ", tail lost" : "");
  if (p.crashAt >= 0) o << " machine stops after " << p.crashAt << " bytes written";
  return o.str();
}

std::string mutate(Sim &s, const std::string &bytes, std::string &how) {
  auto &f = s.f();
  std::string b = bytes;
  how.clear();
  uint32_t n = f.range(1, 4);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t z = (uint32_t)b.size();
    uint32_t at = z == 0 ? 0 : f.chance(50) ? f.draw(std::min<uint32_t>(z, 64)) : f.draw(z);
    switch (f.chance(3) ? 9 : f.draw(9)) {
    case 9: { // much more of the same
      uint32_t k = std::min<uint32_t>(z - at, f.range(1, 64));
      std::string block = k ? b.substr(at, k) : std::string("\xff", 1), many;
      for (uint32_t bytes = f.range(2000, 60000); many.size() < bytes;) {
        many += block;
      }
      b.insert(at, many);
      if (f.chance(60) && at > 4) {
        b[at - f.range(1, 4)] = (char)f.draw(256);
      }
      how += " " + std::to_string(many.size() / block.size()) + " times " + std::to_string(k) + " bytes at " + std::to_string(at);
      s.hit("fault:block_multiplied");
      break;
    }
    case 0:
      if (z) {
        uint32_t bit = f.draw(8);
        b[at] = (char)(b[at] ^ (1 << bit));
        how += " flip " + std::to_string(at) + "." + std::to_string(bit);
        s.hit("fault:bit_flip");
      }
      break;
    case 1:
      if (z) {
        b[at] = (char)f.pick<uint32_t>({255, 0, 127, 128, f.draw(256)});
        how += " set " + std::to_string(at);
        s.hit("fault:byte_overwritten");
      }
      break;
    case 2: {
      uint32_t k = std::min<uint32_t>(z - at, f.range(1, 8));
      for (uint32_t q = 0; q < k; q++) {
        b[at + q] = (char)255;
      }
      how += " ff*" + std::to_string(k) + " at " + std::to_string(at);
      s.hit("fault:forged_field");
      break;
    }
    case 3:
      b.resize(at);
      how += " cut at " + std::to_string(at);
      s.hit("fault:truncated");
      break;
    case 4: {
      uint32_t k = std::min<uint32_t>(z - at, f.range(1, 16));
      b.erase(at, k);
      how += " remove " + std::to_string(k) + " at " + std::to_string(at);
      s.hit("fault:bytes_removed");
      break;
    }
    case 5: {
      std::string ins;
      for (uint32_t q = 0, k = f.range(1, 12); q < k; q++) {
        ins += (char)f.draw(256);
      }
      b.insert(at, ins);
      how += " insert " + std::to_string(ins.size()) + " at " + std::to_string(at);
      s.hit("fault:bytes_inserted");
      break;
    }
    case 6: {
      uint32_t k = std::min<uint32_t>(z - at, f.range(1, 64));
      uint32_t to = z ? f.draw(z) : 0;
      b.insert(to, b.substr(at, k));
      how += " duplicate " + std::to_string(k) + " of " + std::to_string(at) + " at " + std::to_string(to);
      s.hit("fault:block_duplicated");
      break;
    }
    case 7: {
      uint32_t k = std::min<uint32_t>(z - at, f.range(1, 512));
      for (uint32_t q = 0; q < k; q++) {
        b[at + q] = 0;
      }
      how += " zero " + std::to_string(k) + " at " + std::to_string(at);
      s.hit("fault:block_zeroed");
      break;
    }
    default: {
      uint32_t k = std::min<uint32_t>(z - at, f.range(1, 40));
      for (uint32_t q = 0; q < k; q++) {
        b[at + q] = (char)f.draw(256);
      }
      how += " scramble " + std::to_string(k) + " at " + std::to_string(at);
      s.hit("fault:block_scrambled");
    }
    }
  }
  return b;
}
void bystanders(Sim &s, const std::string &path) {
  if (!s.c().chance(40)) {
    return;
  }
  static const char *const tails[] = {".tmp", "~", ".bak", ".part", ".1", ".swp", ".json", ".ohm"};
  const std::string stem = path.substr(0, path.rfind('.'));
  for (uint32_t i = 0, n = s.c().range(1, 3); i < n; i++) {
    std::string p = (s.c().chance(70) ? path : stem) + tails[s.c().draw(8)];
    if (env::disk.files.count(p) == 0) {
      env::disk.files[p] = std::string(s.c().draw(60), 'b');
    }
  }
}
std::string foreignChange(const std::map<std::string, std::string> &before, const std::set<std::string> &allowed) {
  const auto &now = env::disk.files;
  for (auto &f : before) {
    if (allowed.count(f.first) != 0) {
      continue;
    }
    auto it = now.find(f.first);
    if (it == now.end()) {
      return f.first + " is gone";
    }
    if (it->second != f.second) {
      return f.first + " changed from " + std::to_string(f.second.size()) + " to " + std::to_string(it->second.size()) + " bytes";
    }
  }
  for (auto &f : now) {
    if (before.count(f.first) == 0 && allowed.count(f.first) == 0) {
      return f.first + " appeared, which nobody asked for";
    }
  }
  return "";
}
} // namespace store
