// F09: a producer that breaks the rules of the format. Its documents are refused, wherever and
// however often they break them; documents at the edge of the rules are loaded.
#include "store.h"
#include <regex>
using namespace haptics::types;
using namespace store;
using sim::Sim;

namespace {
struct Rule {
  const char *name;
  // Breaks the rule somewhere in the experience; false when the experience has no place for it.
  bool (*apply)(sim::Choices &f, Haptics &h);
};
// What a writer corrects by itself is broken in the stored text: expression and replacement.
thread_local std::vector<std::pair<std::string, std::string>> edits;
std::string edited(const std::string &text) {
  std::string t = text;
  for (auto &e : edits) {
    t = std::regex_replace(t, std::regex(e.first), e.second, std::regex_constants::format_first_only);
  }
  return t;
}
template <class T> T &any(sim::Choices &f, std::vector<T *> &v) { return *v[f.draw((uint32_t)v.size())]; }
std::vector<Perception *> percs(Haptics &h) {
  std::vector<Perception *> v;
  for (size_t i = 0; i < h.getPerceptionsSize(); i++) {
    v.push_back(&h.getPerceptionAt((int)i));
  }
  return v;
}
std::vector<Channel *> chans(Haptics &h) {
  std::vector<Channel *> v;
  for (auto *p : percs(h)) {
    for (size_t i = 0; i < p->getChannelsSize(); i++) {
      v.push_back(&p->getChannelAt((int)i));
    }
  }
  return v;
}
std::vector<Band *> bandsOf(Haptics &h) {
  std::vector<Band *> v;
  for (auto *c : chans(h)) {
    for (size_t i = 0; i < c->getBandsSize(); i++) {
      v.push_back(&c->getBandAt((int)i));
    }
  }
  return v;
}
template <class T, class P> std::vector<T *> only(std::vector<T *> v, P p) {
  std::vector<T *> out;
  for (auto *x : v) {
    if (p(*x)) {
      out.push_back(x);
    }
  }
  return out;
}
bool simple(Haptics &h) { return h.getProfile() == "Simple Parametric"; }
std::vector<ReferenceDevice *> devices(Haptics &h) {
  std::vector<ReferenceDevice *> v;
  for (auto *p : percs(h)) {
    for (size_t i = 0; i < p->getReferenceDevicesSize(); i++) {
      v.push_back(&p->getReferenceDeviceAt((int)i));
    }
  }
  return v;
}
// The device to spoil: an existing or a new one.
ReferenceDevice *device(sim::Choices &f, Haptics &h) {
  auto d = devices(h);
  if (!d.empty() && f.chance(70)) {
    return &any(f, d);
  }
  auto p = percs(h);
  if (p.empty()) {
    return nullptr;
  }
  Perception &q = any(f, p);
  ReferenceDevice r(20000, "device");
  q.addReferenceDevice(r);
  return &q.getReferenceDeviceAt((int)q.getReferenceDevicesSize() - 1);
}
bool badSemanticPlace(Perception &p) {
  return !p.getEffectSemanticScheme() || *p.getEffectSemanticScheme() == "urn:mpeg:mpegi:haptics:effectsemantic:2023";
}
std::vector<Effect *> bandEffects(Haptics &h, bool (*place)(Perception &), bool (*band)(Band &)) {
  std::vector<Effect *> v;
  for (auto *p : only(percs(h), place)) {
    for (size_t i = 0; i < p->getChannelsSize(); i++) {
      for (size_t j = 0; j < p->getChannelAt((int)i).getBandsSize(); j++) {
        Band &b = p->getChannelAt((int)i).getBandAt((int)j);
        for (size_t k = 0; band(b) && k < b.getEffectsSize(); k++) {
          v.push_back(&b.getEffectAt((int)k));
        }
      }
    }
  }
  return v;
}
bool anyPlace(Perception &) { return true; }
bool anyBand(Band &) { return true; }
bool isWavelet(Band &b) { return b.getBandType() == BandType::WaveletWave; }
bool noWavelet(Band &b) { return !isWavelet(b); }
template <class T> Vector vec(T x, T y, T z) { return Vector((int8_t)x, (int8_t)y, (int8_t)z); }

const Rule RULES[] = {
    {"version", [](sim::Choices &f, Haptics &h) {
       std::string v = f.pick<std::string>({"2022", "", "23", "2023-0", "2023-", "abcd", "2023-10", "v2023", "20231", "2023 "});
       edits.emplace_back("\"version\"(\\s*):(\\s*)\"[^\"]*\"", "\"version\"$1:$2\"" + v + "\"");
       return true;
     }},
    {"profile", [](sim::Choices &f, Haptics &h) {
       std::string v = f.pick<std::string>({"main", "Main ", "Simple", "Simple parametric", "High"});
       h.setProfile(v);
       return true;
     }},
    {"level", [](sim::Choices &f, Haptics &h) {
       h.setLevel(f.pick<uint8_t>({0, 3, 255, 128}));
       return true;
     }},
    {"date", [](sim::Choices &f, Haptics &h) {
       std::string v = f.pick<std::string>({"", "today", "31.1.24", "x"});
       edits.emplace_back("\"date\"(\\s*):(\\s*)\"[^\"]*\"", "\"date\"$1:$2\"" + v + "\"");
       return true;
     }},
    {"timescale", [](sim::Choices &f, Haptics &h) {
       h.setTimescale(simple(h) ? f.pick<unsigned>({999, 1001, 48000, 1}) : f.pick<unsigned>({48001, 96000, 0x7fffffff, 4294967295U}));
       return h.getProfile() == "Main" || simple(h);
     }},
    {"avatar-zero", [](sim::Choices &f, Haptics &h) {
       if (h.getAvatarsSize() > 0 && f.chance(50)) {
         h.getAvatarAt((int)f.draw((uint32_t)h.getAvatarsSize())).setId(0);
       } else {
         Avatar a(0, 1, AvatarType::Vibration);
         h.addAvatar(a);
       }
       return true;
     }},
    {"avatar-twice", [](sim::Choices &f, Haptics &h) {
       if (h.getAvatarsSize() == 0) {
         Avatar a(9, 1, AvatarType::Pressure);
         h.addAvatar(a);
       }
       Avatar a = h.getAvatarAt((int)f.draw((uint32_t)h.getAvatarsSize()));
       h.addAvatar(a);
       return true;
     }},
    {"perception-twice", [](sim::Choices &f, Haptics &h) {
       auto p = percs(h);
       if (p.empty()) {
         return false;
       }
       Perception q = any(f, p);
       if (f.chance(50)) {
         q = Perception(q.getId(), 0, "", PerceptionModality::Force);
       }
       h.addPerception(q);
       return true;
     }},
    {"modality", [](sim::Choices &f, Haptics &h) {
       auto p = percs(h);
       if (!simple(h) || h.getLevel() != 1 || p.empty()) {
         return false;
       }
       any(f, p).setPerceptionModality(f.pick({PerceptionModality::Other, PerceptionModality::Pressure, PerceptionModality::Acceleration,
                                               PerceptionModality::Velocity, PerceptionModality::Position, PerceptionModality::Temperature,
                                               PerceptionModality::Water, PerceptionModality::Wind, PerceptionModality::Friction,
                                               PerceptionModality::Electrotactile}));
       return true;
     }},
    {"avatar-missing", [](sim::Choices &f, Haptics &h) {
       auto p = percs(h);
       if (p.empty()) {
         return false;
       }
       any(f, p).setAvatarId(f.pick({30000, -1, 3000}));
       return true;
     }},
    {"scheme", [](sim::Choices &f, Haptics &h) {
       auto p = percs(h);
       if (p.empty()) {
         return false;
       }
       std::string v = f.pick<std::string>({"mpeg", "http://example.org/x", "urn", "urn:", "u:mpeg:x"});
       any(f, p).setEffectSemanticScheme(v);
       return true;
     }},
    {"channel-count", [](sim::Choices &f, Haptics &h) {
       auto p = percs(h);
       if (p.empty() || h.getLevel() != 1) {
         return false;
       }
       Perception &q = any(f, p);
       for (int id = 40000; q.getChannelsSize() < 130; id++) {
         Channel c(id, "", 1, 1, 0);
         q.addChannel(c);
       }
       return true;
     }},
    {"device-twice", [](sim::Choices &f, Haptics &h) {
       auto p = only(percs(h), [](Perception &q) { return q.getReferenceDevicesSize() > 0; });
       if (p.empty()) {
         return false;
       }
       Perception &q = any(f, p);
       ReferenceDevice r = q.getReferenceDeviceAt((int)f.draw((uint32_t)q.getReferenceDevicesSize()));
       if (f.chance(50)) {
         r = ReferenceDevice(r.getId(), "another");
       }
       q.addReferenceDevice(r);
       return true;
     }},
    {"device-frequencies", [](sim::Choices &f, Haptics &h) {
       ReferenceDevice *d = device(f, h);
       if (d == nullptr) {
         return false;
       }
       // each pair of the three is compared, whether or not the third is given
       *d = ReferenceDevice(d->getId(), d->getName());
       const bool third = f.chance(50);
       switch (f.draw(3)) {
       case 0:
         d->setMinimumFrequency(500);
         d->setMaximumFrequency(f.pick({499.75F, 0.0F, 100.0F}));
         if (third) {
           d->setResonanceFrequency(f.pick({500.0F, 50.0F}));
         }
         break;
       case 1:
         d->setMinimumFrequency(500);
         d->setResonanceFrequency(f.pick({499.75F, 0.0F}));
         if (third) {
           d->setMaximumFrequency(1000);
         }
         break;
       default:
         d->setMaximumFrequency(1000);
         d->setResonanceFrequency(f.pick({1000.25F, 9999.0F}));
         if (third) {
           d->setMinimumFrequency(500);
         }
       }
       return true;
     }},
    {"channel-twice", [](sim::Choices &f, Haptics &h) {
       auto p = only(percs(h), [](Perception &q) { return q.getChannelsSize() > 0; });
       if (p.empty()) {
         return false;
       }
       Perception &q = any(f, p);
       Channel c(q.getChannelAt((int)f.draw((uint32_t)q.getChannelsSize())).getId(), "again", 1, 1, 0);
       q.addChannel(c);
       return true;
     }},
    {"device-missing", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty()) {
         return false;
       }
       any(f, c).setReferenceDeviceId(f.pick({30000, 29999}));
       return true;
     }},
    {"direction", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty()) {
         return false;
       }
       any(f, c).setDirection(f.pick({vec(0, 0, 0), vec(127, 127, 0), vec(1, 0, 0), vec(-128, -128, -128), vec(0, 0, 120), vec(0, -64, 64), vec(90, 90, 30)}));
       return true;
     }},
    {"band-count", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty() || (h.getLevel() != 1 && h.getLevel() != 2)) {
         return false;
       }
       Channel &q = any(f, c);
       const size_t n = h.getLevel() == 1 ? f.pick({8, 9, 20}) : f.pick({64, 65, 100});
       while (q.getBandsSize() < n) {
         Band b(BandType::VectorialWave, 0, 100);
         q.addBand(b);
       }
       return true;
     }},
    {"resolution", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty()) {
         return false;
       }
       Channel &q = any(f, c);
       q.setActuatorResolution(f.pick({vec(-1, 3, 3), vec(3, -1, 3), vec(3, 3, -1), vec(127, 127, -128)}));
       q.setActuatorTarget(std::nullopt);
       return true;
     }},
    {"target", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty()) {
         return false;
       }
       Channel &q = any(f, c);
       q.setActuatorResolution(vec(3, 5, 7));
       std::vector<Vector> v{vec(3, 5, 7), vec(0, 0, 0), vec(1, 2, 3)};
       v[f.draw(3)] = f.pick({vec(4, 5, 7), vec(3, 6, 7), vec(3, 5, 8), vec(-1, 0, 0), vec(0, -1, 0), vec(0, 0, -1), vec(127, 0, 0), vec(0, -128, 0)});
       q.setActuatorTarget(v);
       return true;
     }},
    {"target-without-resolution", [](sim::Choices &f, Haptics &h) {
       auto c = only(chans(h), [](Channel &q) { return q.getActuatorTarget().has_value() && !q.getActuatorTarget()->empty(); });
       if (!c.empty() && f.chance(50)) {
         any(f, c).setActuatorResolution(std::nullopt);
         return true;
       }
       c = chans(h);
       if (c.empty()) {
         return false;
       }
       Channel &q = any(f, c);
       q.setActuatorResolution(std::nullopt);
       q.setActuatorTarget(std::vector<Vector>{vec(0, 0, 0)});
       return true;
     }},
    {"curve-type", [](sim::Choices &f, Haptics &h) {
       auto b = only(bandsOf(h), [](Band &q) { return q.getBandType() == BandType::VectorialWave; });
       if (b.empty()) {
         return false;
       }
       edits.emplace_back("\"band_type\"(\\s*):(\\s*)\"VectorialWave\"", "\"band_type\"$1:$2\"VectorialWave\",\"curve_type\":\"" +
                          f.pick<std::string>({"Linear", "Cubic", "Unknown"}) + "\"");
       return true;
     }},
    {"block-length", [](sim::Choices &f, Haptics &h) {
       auto b = only(bandsOf(h), isWavelet);
       if (b.empty()) {
         return false;
       }
       any(f, b).setBlockLength(f.pick({3, 100, 1023, 1025, 0, 384}));
       return true;
     }},
    {"simple-wavelet", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty() || !simple(h)) {
         return false;
       }
       Band b(BandType::WaveletWave, 0, 100);
       b.setBlockLength(512);
       any(f, c).addBand(b);
       return true;
     }},
    {"limits", [](sim::Choices &f, Haptics &h) {
       auto b = bandsOf(h);
       if (b.empty()) {
         return false;
       }
       Band &q = any(f, b);
       q.setUpperFrequencyLimit(f.pick({99, 0, 50}));
       q.setLowerFrequencyLimit(f.pick({100, 65535}));
       return true;
     }},
    {"simple-composite", [](sim::Choices &f, Haptics &h) {
       auto b = only(bandsOf(h), noWavelet);
       if (!simple(h)) {
         return false;
       }
       Effect e(0, EffectType::Composite);
       e.setId(31000);
       if (f.chance(50)) {
         auto p = percs(h);
         if (p.empty()) {
           return false;
         }
         any(f, p).addBasisEffect(e);
         return true;
       }
       if (b.empty()) {
         return false;
       }
       any(f, b).addEffect(e);
       return true;
     }},
    {"reference", [](sim::Choices &f, Haptics &h) {
       auto b = only(bandsOf(h), noWavelet);
       if (b.empty()) {
         return false;
       }
       Effect e(0, EffectType::Reference);
       e.setId(f.pick({31000, 29998}));
       if (f.chance(50)) { // what another perception has does not help
         Effect lib(0, EffectType::Basis);
         lib.setId(31000);
         Perception p(29000, 0, "", PerceptionModality::Force);
         p.addBasisEffect(lib);
         h.addPerception(p);
         b = only(bandsOf(h), noWavelet);
       }
       any(f, b).addEffect(e);
       return true;
     }},
    {"semantic", [](sim::Choices &f, Haptics &h) {
       auto e = bandEffects(h, badSemanticPlace, anyBand);
       if (e.empty()) {
         return false;
       }
       std::string v = f.pick<std::string>({"", "custom", "thunder ", "Unknown"});
       any(f, e).setSemantic(v);
       return true;
     }},
    {"library-twice", [](sim::Choices &f, Haptics &h) {
       auto p = only(percs(h), [](Perception &q) { return q.getEffectLibrarySize() > 0; });
       if (p.empty()) {
         return false;
       }
       Perception &q = any(f, p);
       Effect e(5, EffectType::Basis);
       e.setId(q.getBasisEffectAt((int)f.draw((uint32_t)q.getEffectLibrarySize())).getId());
       q.addBasisEffect(e);
       return true;
     }},
};

// Changes after which every rule still holds.
const Rule EDGES[] = {
    {"version", [](sim::Choices &f, Haptics &h) {
       std::string v = f.pick<std::string>({"2023", "2023-1", "2024-9", "9999"});
       h.setVersion(v);
       return true;
     }},
    {"date", [](sim::Choices &f, Haptics &h) {
       std::string v = f.pick<std::string>({"2023", "2024-12", "2024-02-29", "2024-02-29T23:59:59+01:00", "1999-01-01"});
       h.setDate(v);
       return true;
     }},
    {"timescale", [](sim::Choices &f, Haptics &h) {
       h.setTimescale(simple(h) ? 1000U : f.pick<unsigned>({48000, 1000, 1, 47999}));
       return true;
     }},
    {"scheme", [](sim::Choices &f, Haptics &h) {
       auto p = only(percs(h), [](Perception &q) { return q.getEffectSemanticScheme() && *q.getEffectSemanticScheme() != "urn:mpeg:mpegi:haptics:effectsemantic:2023"; });
       if (p.empty()) {
         return false;
       }
       std::string v = f.pick<std::string>({"urn:ab:c", "urn:example-org:x:y/z", "URN:uuid:6e8bc430-9c3a-11d9-9669-0800200c9a66"});
       any(f, p).setEffectSemanticScheme(v);
       return true;
     }},
    {"foreign-semantic", [](sim::Choices &f, Haptics &h) {
       auto e = bandEffects(h, [](Perception &q) { return q.getEffectSemanticScheme() && *q.getEffectSemanticScheme() != "urn:mpeg:mpegi:haptics:effectsemantic:2023"; }, anyBand);
       if (e.empty()) {
         return false;
       }
       std::string v = f.pick<std::string>({"custom", "thunder", "x y"});
       any(f, e).setSemantic(v);
       return true;
     }},
    {"device-frequencies", [](sim::Choices &f, Haptics &h) {
       auto v = devices(h);
       if (v.empty()) {
         return false;
       }
       ReferenceDevice &d = any(f, v);
       d = ReferenceDevice(d.getId(), d.getName());
       if (f.chance(70)) {
         d.setMinimumFrequency(250);
       }
       if (f.chance(70)) {
         d.setMaximumFrequency(f.pick({250.0F, 300.0F}));
       }
       if (f.chance(70)) {
         d.setResonanceFrequency(250);
       }
       return true;
     }},
    {"target", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty()) {
         return false;
       }
       Channel &q = any(f, c);
       q.setActuatorResolution(f.pick({vec(3, 5, 7), vec(127, 127, 127), vec(4, 5, 8)}));
       q.setActuatorTarget(std::vector<Vector>{vec(3, 5, 7), vec(0, 0, 0)});
       return true;
     }},
    {"limits", [](sim::Choices &f, Haptics &h) {
       auto b = bandsOf(h);
       if (b.empty()) {
         return false;
       }
       Band &q = any(f, b);
       int at = f.pick({0, 65535, 1000});
       q.setUpperFrequencyLimit(at);
       q.setLowerFrequencyLimit(at);
       return true;
     }},
    {"band-count", [](sim::Choices &f, Haptics &h) {
       auto c = chans(h);
       if (c.empty()) {
         return false;
       }
       Channel &q = any(f, c);
       while (q.getBandsSize() < (h.getLevel() == 1 ? 7 : 63)) {
         Band b(BandType::VectorialWave, 0, 100);
         q.addBand(b);
       }
       return true;
     }},
    {"same-id-elsewhere", [](sim::Choices &f, Haptics &h) {
       auto p = only(percs(h), [](Perception &q) { return q.getChannelsSize() > 0; });
       if (p.empty()) {
         return false;
       }
       Perception &q = any(f, p);
       Perception other(28000, 0, "same ids as in another perception", PerceptionModality::Force);
       Channel c(q.getChannelAt(0).getId(), "", 1, 1, 0);
       other.addChannel(c);
       for (size_t i = 0; i < q.getReferenceDevicesSize(); i++) {
         ReferenceDevice d(q.getReferenceDeviceAt((int)i).getId(), "d");
         other.addReferenceDevice(d);
       }
       for (size_t i = 0; i < q.getEffectLibrarySize(); i++) {
         Effect e(0, EffectType::Basis);
         e.setId(q.getBasisEffectAt((int)i).getId());
         other.addBasisEffect(e);
       }
       for (auto *x : percs(h)) {
         if (x->getId() == 28000) {
           return false;
         }
       }
       h.addPerception(other);
       return true;
     }},
};

template <size_t N> std::string change(Sim &s, const Rule (&rules)[N], Haptics &h, const char *what) {
  const Rule &r = rules[s.f().draw(N)];
  Haptics copy = h;
  if (!r.apply(s.f(), copy)) {
    return "";
  }
  h = copy;
  s.hit(std::string(what) + ":" + r.name);
  return std::string(" ") + what + " " + r.name;
}
} // namespace

void scenF09(Sim &s) {
  GenDoc g;
  g.bulk = false;
  g.composites = false; // known finding of F04
  g.validDate = true;
  World w = makeWorld(s, JSON, g);
  s.check(w.ok, "healthy-round-trip-fails", w.why + "\n" + w.d.brief());
  for (uint32_t i = 0, n = s.c().range(1, 4); i < n; i++) {
    Doc d = w.d;
    std::string how;
    for (uint32_t k = s.f().draw(3); k > 0; k--) {
      how += change(s, EDGES, d.h, "edge");
    }
    bool broken = false;
    edits.clear();
    for (uint32_t k = s.faulty ? s.f().draw(4) : 0; k > 0; k--) {
      std::string b = change(s, RULES, d.h, "broken");
      broken |= !b.empty();
      how += b;
    }
    Call c = save(d, w.path);
    if (broken && c.res != Res::OK) { // a writer may refuse it as well
      s.hit("save_refused");
      continue;
    }
    s.check(c.res == Res::OK, "save-fails", "saving a document at the edge of the rules (" + how + " ) ended with " + name(c.res) + " " + c.what + "\n" + w.d.brief());
    if (!edits.empty()) {
      env::disk.files[w.path] = edited(env::disk.files[w.path]);
    }
    env::diskBegin(benign(s));
    Loaded l;
    c = load(d, w.path, l);
    env::diskEnd();
    s.log("document" + how + ": " + name(c.res));
    s.cover(sim::fnv(how));
    s.check(c.res != Res::THREW, "load-threw", "loading a document with" + how + " threw " + c.what + "\n" + d.brief());
    if (broken) {
      s.check(c.res == Res::FAIL, "nonconforming-accepted", "a document with" + how + " was loaded as conforming\n" + d.brief());
      s.hit("refused");
    } else {
      s.check(c.res == Res::OK, "conforming-refused", "a document with" + how + " was refused\n" + d.brief());
      d.src = model::canon(d.h, model::Fmt::Json);
      std::string diff = compare(d, l);
      s.check(diff.empty(), "round-trip", "a document with" + how + ": " + diff + "\n" + w.d.brief());
      s.hit("accepted");
    }
  }
  env::disk.files[w.path] = w.bytes;
  Loaded l;
  Call c = load(w.d, w.path, l);
  s.check(c.res == Res::OK, "load-fails-afterwards", std::string("after the refused documents the original is not loaded: ") + name(c.res) + " " + c.what + "\n" + w.d.brief());
  s.check(dumpLoaded(JSON, l) == w.dump, "content-differs-afterwards", "after the refused documents the original has other content\n" + w.d.brief());
}
