#include "model.h"
#include <IOHaptics/include/IOBinaryPrimitives.h>
#include <algorithm>
#include <cmath>
#include <sstream>

namespace model {
using namespace haptics::types;

namespace {
std::string num(long v) { return std::to_string(v); }
std::string fl(double v, Fmt f) {
  char b[48];
  if (f == Fmt::Json) {
    snprintf(b, sizeof b, "%.9g", v);
  } else {
    // generated values are multiples of a quarter, the field's step is below 0.003
    snprintf(b, sizeof b, "%.2f", std::round(v * 100) / 100 + 0.0);
  }
  return b;
}
std::string hex(const std::string &s) {
  bool plain = true;
  for (unsigned char c : s) {
    plain = plain && c >= 32 && c < 127 && c != '|';
  }
  if (plain) {
    return "'" + s + "'";
  }
  std::string o = "x";
  for (unsigned char c : s) {
    char b[4];
    snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o;
}
long ampIdx(double a) { return std::lround((a + 1) / 2 * 255); }
long phaseIdx(double p) { return std::lround(p / haptics::io::MAX_PHASE * 65535); }
std::string amp(double a, Fmt f) { return f == Fmt::Json ? fl(a, f) : num(ampIdx(a)); }
std::string phase(double a, Fmt f) { return f == Fmt::Json ? fl(a, f) : num(phaseIdx(a)); }
std::string vec(const Vector &v) { return num(v.X) + "," + num(v.Y) + "," + num(v.Z); }

CKf canonKf(Keyframe &k, Fmt f, BandType bt, bool lib) {
  CKf r;
  auto p = k.getRelativePosition();
  auto a = k.getAmplitudeModulation();
  auto q = k.getFrequencyModulation();
  if (lib || f == Fmt::Json) {
    r.pos = p ? *p : -1;
    r.rest = (a ? "a" + amp(*a, f) : "") + (q ? "f" + num(*q) : "");
    return r;
  }
  r.pos = p.value_or(0);
  if (bt == BandType::VectorialWave) {
    r.rest = (a ? "a" + amp(*a, f) : "") + (q ? "f" + num(*q) : "");
  } else {
    r.rest = "a" + amp(a.value_or(0), f);
    if (bt == BandType::Transient) {
      r.rest += "f" + num(q.value_or(0));
    }
  }
  return r;
}

CEff canonEff(Effect &e, Fmt f, BandType bt, bool lib, bool nested) {
  CEff r;
  r.type = (int)e.getEffectType();
  r.pos = e.getPosition();
  r.id = e.getId();
  bool isRef = e.getEffectType() == EffectType::Reference;
  bool isBasis = e.getEffectType() == EffectType::Basis;
  bool wav = !lib && isBasis && bt == BandType::WaveletWave;
  if ((f == Fmt::Binary || f == Fmt::Json) && !lib && !isRef) {
    r.id = -1; // not stored
  }
  if (f == Fmt::Stream && wav) {
    r.id = -1;
  }
  if (e.getSemantic() && f != Fmt::Binary && !(f == Fmt::Stream && !lib && isRef)) {
    r.attrs += " sem=" + *e.getSemantic();
  }
  if (f == Fmt::Json) {
    if (e.getPhase()) {
      r.attrs += " ph=" + phase(*e.getPhase(), f);
    }
    if (e.getBaseSignal()) {
      r.attrs += " base=" + num((int)*e.getBaseSignal());
    }
  } else if (isBasis && (lib || bt == BandType::VectorialWave)) {
    r.attrs += " ph=" + phase(e.getPhaseOrDefault(), f) +
               " base=" + num((int)e.getBaseSignalOrDefault());
  }
  bool kfs = lib || f == Fmt::Json || (isBasis && !wav);
  if (kfs) {
    for (size_t i = 0; i < e.getKeyframesSize(); i++) {
      r.kfs.push_back(canonKf(e.getKeyframeAt((int)i), f, bt, lib));
    }
  }
  if (wav) {
    r.isWav = true;
    auto &b = e.getWaveletBitstream();
    r.wav = std::string(b.begin(), b.end());
    while (f == Fmt::Json && !r.wav.empty() && r.wav.back() == 0) {
      r.wav.pop_back(); // base64 without trailing zero bits
    }
  }
  if (f != Fmt::Json && (lib || e.getEffectType() == EffectType::Composite)) {
    for (size_t i = 0; i < e.getTimelineSize(); i++) {
      r.tl.push_back(canonEff(e.getTimelineEffectAt((int)i), f, bt, lib, true));
    }
  }
  (void)nested;
  return r;
}

std::string canonRefDev(ReferenceDevice &d, Fmt f) {
  std::string o = "dev " + num(d.getId()) + " " + hex(d.getName());
  if (f == Fmt::Json) {
    if (d.getBodyPartMask()) {
      o += " mask=" + num(*d.getBodyPartMask());
    }
  } else {
    o += " mask=" + num(d.getBodyPartMask().value_or(0));
  }
  auto add = [&](const char *n, std::optional<float> v) {
    if (v) {
      o += std::string(" ") + n + "=" + fl(*v, f);
    }
  };
  add("maxf", d.getMaximumFrequency());
  add("minf", d.getMinimumFrequency());
  add("resf", d.getResonanceFrequency());
  add("maxa", d.getMaximumAmplitude());
  add("imp", d.getImpedance());
  add("maxv", d.getMaximumVoltage());
  add("maxc", d.getMaximumCurrent());
  add("maxd", d.getMaximumDisplacement());
  add("weight", d.getWeight());
  add("size", d.getSize());
  add("custom", d.getCustom());
  if (d.getType()) {
    o += " type=" + num((int)*d.getType());
  }
  return o;
}
} // namespace

std::string CEff::str(bool withPos) const {
  std::ostringstream o;
  o << "effect id=" << id << " type=" << type;
  if (withPos) {
    o << " pos=" << pos;
  }
  o << attrs;
  for (const auto &k : kfs) {
    o << " (" << k.pos << ":" << k.rest << ")";
  }
  if (isWav) {
    o << " wav=" << hex(wav);
  }
  if (!tl.empty()) {
    o << " [";
    for (const auto &t : tl) {
      o << t.str(true) << ";";
    }
    o << "]";
  }
  return o.str();
}

CExp canon(Haptics &h, Fmt f) {
  CExp r;
  r.meta = "version=" + hex(h.getVersion()) + " profile=" + hex(h.getProfile()) +
           " level=" + num(h.getLevel()) + " date=" + hex(h.getDate()) +
           " desc=" + hex(h.getDescription());
  r.timescale = f == Fmt::Binary ? 0 : h.getTimescaleOrDefault();
  for (size_t i = 0; i < h.getAvatarsSize(); i++) {
    Avatar &a = h.getAvatarAt((int)i);
    std::string s = "avatar " + num(a.getId()) + " lod=" + num(a.getLod()) +
                    " type=" + num((int)a.getType());
    if (f == Fmt::Json) {
      s += a.getMesh() ? " mesh=" + hex(*a.getMesh()) : "";
    } else if (a.getType() == AvatarType::Custom) {
      s += " mesh=" + hex(a.getMesh().value_or(""));
    }
    r.avatars.push_back(s);
  }
  if (f != Fmt::Binary) {
    for (size_t i = 0; i < h.getSyncsSize(); i++) {
      r.syncs.push_back(h.getSyncsAt((int)i).getTimestamp());
      auto st = h.getSyncsAt((int)i).getTimescale();
      if (f == Fmt::Json && st) {
        r.meta += " sync#" + num((long)i) + "timescale=" + num(*st);
      }
    }
  }
  for (size_t i = 0; i < h.getPerceptionsSize(); i++) {
    Perception &p = h.getPerceptionAt((int)i);
    CPerc cp;
    cp.id = p.getId();
    long av = p.getAvatarId();
    if (f == Fmt::Stream) {
      av &= 255;
    }
    if (f == Fmt::Binary) {
      av &= 255;
    }
    cp.meta = "perception " + num(p.getId()) + " avatar=" + num(av) + " " +
              hex(p.getDescription()) + " modality=" + num((int)p.getPerceptionModality());
    if (f == Fmt::Json) {
      if (p.getPriority()) {
        cp.meta += " prio=" + num(*p.getPriority());
      }
      if (p.getUnitExponent()) {
        cp.meta += " ue=" + num(*p.getUnitExponent());
      }
      if (p.getPerceptionUnitExponent()) {
        cp.meta += " pue=" + num(*p.getPerceptionUnitExponent());
      }
      if (p.getEffectSemanticScheme()) {
        cp.meta += " scheme=" + hex(*p.getEffectSemanticScheme());
      }
    } else {
      cp.meta += " ue=" + num(p.getUnitExponentOrDefault()) +
                 " pue=" + num(p.getPerceptionUnitExponentOrDefault());
      if (f == Fmt::Stream) {
        cp.meta += " prio=" + num(p.getPriorityOrDefault());
        if (p.getEffectSemanticScheme()) {
          cp.meta += " scheme=" + hex(*p.getEffectSemanticScheme());
        }
      }
    }
    cp.spatial = p.getPerceptionModality() == PerceptionModality::VibrotactileTexture ||
                 p.getPerceptionModality() == PerceptionModality::Stiffness ||
                 p.getPerceptionModality() == PerceptionModality::Friction;
    for (size_t k = 0; k < p.getReferenceDevicesSize(); k++) {
      cp.meta += " {" + canonRefDev(p.getReferenceDeviceAt((int)k), f) + "}";
    }
    for (size_t k = 0; k < p.getEffectLibrarySize(); k++) {
      cp.lib.push_back(canonEff(p.getBasisEffectAt((int)k), f, BandType::VectorialWave, true, false));
    }
    for (size_t k = 0; k < p.getChannelsSize(); k++) {
      Channel &c = p.getChannelAt((int)k);
      CChan cc;
      cc.id = c.getId();
      cc.meta = "channel " + num(c.getId()) + " " + hex(c.getDescription()) +
                " gain=" + fl(c.getGain(), f) + " mix=" + fl(c.getMixingWeight(), f);
      if (f == Fmt::Json) {
        cc.meta += c.getPriority() ? " prio=" + num(*c.getPriority()) : "";
        cc.meta += c.getReferenceDeviceId() ? " dev=" + num(*c.getReferenceDeviceId()) : "";
      } else if (f == Fmt::Stream) {
        cc.meta += " prio=" + num(c.getPriorityOrDefault());
        long d = c.getReferenceDeviceId().value_or(255) & 255;
        cc.meta += " dev=" + (d >= 255 ? std::string("none") : num(d));
      } else {
        cc.meta += " dev=" + num(c.getReferenceDeviceId().value_or(255) & 255);
      }
      bool res = c.getActuatorResolution().has_value();
      if (f == Fmt::Json || !res) {
        cc.meta += " mask=" + num(c.getBodyPartMask());
      }
      if (res) {
        cc.meta += " res=" + vec(*c.getActuatorResolution());
      }
      if (f == Fmt::Json || res) {
        auto bp = c.getBodyPartTarget();
        if (bp && (!bp->empty())) {
          cc.meta += " bpt=";
          for (auto b : *bp) {
            cc.meta += num((int)b) + ",";
          }
        }
        auto at = c.getActuatorTarget();
        if (at && (!at->empty())) {
          cc.meta += " at=";
          for (auto &b : *at) {
            cc.meta += vec(b) + ";";
          }
        }
      }
      long fs = c.getFrequencySampling().value_or(0);
      if (f == Fmt::Json) {
        cc.meta += c.getFrequencySampling() ? " fs=" + num(fs) : "";
        cc.meta += c.getSampleCount() ? " sc=" + num(*c.getSampleCount()) : "";
      } else if (fs > 0) {
        cc.meta += " fs=" + num(fs) + " sc=" + num(c.getSampleCount().value_or(0));
      }
      if (c.getDirection()) {
        cc.meta += " dir=" + vec(*c.getDirection());
      }
      cc.meta += " v=";
      for (size_t v = 0; v < c.getVerticesSize(); v++) {
        cc.meta += num(c.getVertexAt((int)v)) + ",";
      }
      for (size_t b = 0; b < c.getBandsSize(); b++) {
        Band &bd = c.getBandAt((int)b);
        CBand cb;
        cb.type = (int)bd.getBandType();
        cb.blockLength = bd.getBlockLengthOrDefault();
        cb.meta = "band type=" + num(cb.type);
        if (f == Fmt::Json) {
          cb.meta += bd.getPriority() ? " prio=" + num(*bd.getPriority()) : "";
        } else if (f == Fmt::Stream) {
          cb.meta += " prio=" + num(bd.getPriorityOrDefault());
        }
        if (bd.getBandType() == BandType::Curve) {
          cb.meta += " curve=" + num((int)bd.getCurveTypeOrDefault());
        }
        if (bd.getBandType() == BandType::WaveletWave) {
          cb.meta += " bl=" + num(bd.getBlockLengthOrDefault());
        }
        cb.meta += " low=" + num(bd.getLowerFrequencyLimit()) + " up=" + num(bd.getUpperFrequencyLimit());
        for (size_t e = 0; e < bd.getEffectsSize(); e++) {
          cb.effects.push_back(
              canonEff(bd.getEffectAt((int)e), f, bd.getBandType(), false, false));
        }
        cc.bands.push_back(std::move(cb));
      }
      cp.ch.push_back(std::move(cc));
    }
    r.p.push_back(std::move(cp));
  }
  return r;
}

namespace {
void dumpEffect(std::ostringstream &o, Effect &e) {
  char b[64];
  o << "E" << e.getId() << "@" << e.getPosition() << "t" << (int)e.getEffectType();
  if (e.getPhase()) {
    snprintf(b, sizeof b, "%.17g", (double)*e.getPhase());
    o << "p" << b;
  }
  if (e.getBaseSignal()) {
    o << "b" << (int)*e.getBaseSignal();
  }
  if (e.getSemantic()) {
    o << "s" << *e.getSemantic();
  }
  for (size_t i = 0; i < e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt((int)i);
    o << "(";
    if (k.getRelativePosition()) {
      o << *k.getRelativePosition();
    }
    o << ":";
    if (k.getAmplitudeModulation()) {
      snprintf(b, sizeof b, "%.17g", (double)*k.getAmplitudeModulation());
      o << b;
    }
    o << ":";
    if (k.getFrequencyModulation()) {
      o << *k.getFrequencyModulation();
    }
    o << ")";
  }
  o << "w";
  for (auto c : e.getWaveletBitstream()) {
    o << (int)c << ",";
  }
  for (auto d : e.getWaveletSamples()) {
    o << d << ",";
  }
  o << "[";
  for (size_t i = 0; i < e.getTimelineSize(); i++) {
    dumpEffect(o, e.getTimelineEffectAt((int)i));
  }
  o << "]\n";
}
} // namespace

std::string fullDump(Haptics &h) {
  CExp m = canon(h, Fmt::Json);
  std::ostringstream o;
  o << m.meta << " ts=" << (h.getTimescale() ? num(*h.getTimescale()) : "none") << "\n";
  for (auto &a : m.avatars) {
    o << a << "\n";
  }
  for (size_t i = 0; i < h.getSyncsSize(); i++) {
    auto &s = h.getSyncsAt((int)i);
    o << "sync " << s.getTimestamp() << "/" << (s.getTimescale() ? num(*s.getTimescale()) : "none")
      << "\n";
  }
  for (size_t i = 0; i < h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt((int)i);
    o << m.p[i].meta << "\n";
    for (size_t k = 0; k < p.getEffectLibrarySize(); k++) {
      dumpEffect(o, p.getBasisEffectAt((int)k));
    }
    for (size_t c = 0; c < p.getChannelsSize(); c++) {
      auto &ch = p.getChannelAt((int)c);
      o << m.p[i].ch[c].meta << (ch.getBodyPartTarget() ? " bpt" : "")
        << (ch.getActuatorTarget() ? " at" : "") << "\n";
      for (size_t b = 0; b < ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt((int)b);
        o << m.p[i].ch[c].bands[b].meta << " ct="
          << (bd.getCurveType() ? num((int)*bd.getCurveType()) : "none")
          << " bl=" << (bd.getBlockLength() ? num(*bd.getBlockLength()) : "none") << "\n";
        for (size_t e = 0; e < bd.getEffectsSize(); e++) {
          dumpEffect(o, bd.getEffectAt((int)e));
        }
      }
    }
  }
  return o.str();
}

std::string text(const CExp &e) {
  std::ostringstream o;
  o << "experience " << e.meta << " timescale=" << e.timescale << "\n";
  for (const auto &a : e.avatars) {
    o << "  " << a << "\n";
  }
  o << "  syncs";
  for (auto s : e.syncs) {
    o << " " << s;
  }
  o << "\n";
  for (const auto &p : e.p) {
    o << "  " << p.meta << "\n";
    for (const auto &l : p.lib) {
      o << "    lib " << l.str() << "\n";
    }
    for (const auto &c : p.ch) {
      o << "    " << c.meta << "\n";
      for (const auto &b : c.bands) {
        o << "      " << b.meta << "\n";
        for (const auto &f : b.effects) {
          o << "        " << f.str() << (f.anyPos ? " (any position)" : "") << "\n";
        }
      }
    }
  }
  return o.str();
}

std::string diffEffects(const std::vector<CEff> &want, const std::vector<CEff> &got) {
  std::multiset<std::string> left;
  std::vector<const CEff *> any;
  for (const auto &g : got) {
    left.insert(g.str());
  }
  for (const auto &w : want) {
    if (w.anyPos) {
      any.push_back(&w);
      continue;
    }
    auto it = left.find(w.str());
    if (it == left.end()) {
      std::string m = "missing: " + w.str() + "\n  present:";
      for (const auto &g : got) {
        m += "\n    " + g.str();
      }
      return m;
    }
    left.erase(it);
  }
  if (!any.empty()) {
    // the remaining ones are compared without their position
    std::multiset<std::string> rest;
    for (const auto &g : got) {
      auto it = left.find(g.str());
      if (it != left.end()) {
        left.erase(it);
        rest.insert(g.str(false));
      }
    }
    for (const auto *w : any) {
      auto it = rest.find(w->str(false));
      if (it == rest.end()) {
        std::string m = "missing (any position): " + w->str(false) + "\n  present:";
        for (const auto &g : got) {
          m += "\n    " + g.str();
        }
        return m;
      }
      rest.erase(it);
    }
    left = rest;
  }
  if (!left.empty()) {
    std::string m = "unexpected: " + *left.begin() + "\n  wanted:";
    for (const auto &w : want) {
      m += "\n    " + w.str();
    }
    return m;
  }
  return "";
}

namespace {
std::string one(const std::string &what, const std::string &w, const std::string &g) {
  return w == g ? "" : what + ":\n  want " + w + "\n  got  " + g;
}
std::string cnt(const std::string &what, size_t w, size_t g) {
  return w == g ? "" : what + ": want " + std::to_string(w) + ", got " + std::to_string(g);
}
#define TRY(x)                                                                                     \
  do {                                                                                             \
    std::string d_ = (x);                                                                          \
    if (!d_.empty()) {                                                                             \
      return d_;                                                                                   \
    }                                                                                              \
  } while (0)

std::string diffAll(const CExp &w, const CExp &g, bool syncs, bool effects, bool ordered) {
  TRY(one("experience", w.meta, g.meta));
  TRY(one("timescale", num(w.timescale), num(g.timescale)));
  TRY(cnt("avatars", w.avatars.size(), g.avatars.size()));
  for (size_t i = 0; i < w.avatars.size(); i++) {
    TRY(one("avatar", w.avatars[i], g.avatars[i]));
  }
  if (syncs) {
    auto list = [](const std::vector<long> &v) {
      std::string s;
      for (auto x : v) {
        s += num(x) + " ";
      }
      return s;
    };
    TRY(one("syncs", list(w.syncs), list(g.syncs)));
  }
  TRY(cnt("perceptions", w.p.size(), g.p.size()));
  for (size_t i = 0; i < w.p.size(); i++) {
    const auto &wp = w.p[i];
    const auto &gp = g.p[i];
    TRY(one("perception", wp.meta, gp.meta));
    TRY(cnt("library of perception " + num(wp.id), wp.lib.size(), gp.lib.size()));
    for (size_t k = 0; k < wp.lib.size(); k++) {
      TRY(one("library effect of perception " + num(wp.id), wp.lib[k].str(), gp.lib[k].str()));
    }
    TRY(cnt("channels of perception " + num(wp.id), wp.ch.size(), gp.ch.size()));
    for (size_t c = 0; c < wp.ch.size(); c++) {
      const auto &wc = wp.ch[c];
      const auto &gc = gp.ch[c];
      TRY(one("channel", wc.meta, gc.meta));
      TRY(cnt("bands of channel " + num(wc.id), wc.bands.size(), gc.bands.size()));
      for (size_t b = 0; b < wc.bands.size(); b++) {
        std::string where = "perception " + num(wp.id) + " channel " + num(wc.id) + " band #" +
                            std::to_string(b);
        TRY(one(where, wc.bands[b].meta, gc.bands[b].meta));
        if (effects && ordered) {
          const auto &we = wc.bands[b].effects, &ge = gc.bands[b].effects;
          TRY(cnt(where + " effects", we.size(), ge.size()));
          for (size_t k = 0; k < we.size(); k++) {
            TRY(one(where + " effect #" + std::to_string(k), we[k].str(), ge[k].str()));
          }
        } else if (effects) {
          std::string d = diffEffects(wc.bands[b].effects, gc.bands[b].effects);
          if (!d.empty()) {
            return where + ": " + d;
          }
        }
      }
    }
  }
  return "";
}
} // namespace

std::string diff(const CExp &w, const CExp &g, bool compareSyncs) {
  return diffAll(w, g, compareSyncs, true, false);
}
std::string diffOrdered(const CExp &w, const CExp &g, bool compareSyncs) {
  return diffAll(w, g, compareSyncs, true, true);
}
std::string diffMeta(const CExp &w, const CExp &g) { return diffAll(w, g, false, false, false); }
std::string disorder(const CExp &g) {
  for (const auto &p : g.p) {
    for (const auto &c : p.ch) {
      for (const auto &b : c.bands) {
        for (size_t i = 1; i < b.effects.size(); i++) {
          if (b.effects[i].pos < b.effects[i - 1].pos) {
            return "perception " + num(p.id) + " channel " + num(c.id) + ": " + b.effects[i].str() + " is stored after " +
                   b.effects[i - 1].str();
          }
        }
      }
    }
  }
  return "";
}

CExp pruned(const CExp &e) {
  CExp r = e;
  r.p.clear();
  for (const auto &p : e.p) {
    CPerc np = p;
    np.ch.clear();
    for (const auto &c : p.ch) {
      CChan nc = c;
      nc.bands.clear();
      for (const auto &b : c.bands) {
        CBand nb = b;
        nb.effects.clear();
        for (const auto &x : b.effects) {
          if (x.type != 0 || x.isWav || !x.kfs.empty()) {
            nb.effects.push_back(x);
          }
        }
        if (!nb.effects.empty()) {
          nc.bands.push_back(nb);
        }
      }
      if (!nc.bands.empty()) {
        np.ch.push_back(nc);
      }
    }
    if (!np.ch.empty()) {
      r.p.push_back(np);
    }
  }
  return r;
}

void forgetIds(CExp &got, const CExp &source) {
  for (size_t i = 0; i < got.p.size() && i < source.p.size(); i++) {
    for (size_t c = 0; c < got.p[i].ch.size() && c < source.p[i].ch.size(); c++) {
      for (size_t b = 0; b < got.p[i].ch[c].bands.size() && b < source.p[i].ch[c].bands.size(); b++) {
        std::set<long> known;
        for (const auto &e : source.p[i].ch[c].bands[b].effects) {
          if (e.type == 0) {
            known.insert(e.id);
          }
        }
        for (auto &e : got.p[i].ch[c].bands[b].effects) {
          if (e.type == 0 && known.count(e.id) == 0) {
            e.id = -1;
          }
        }
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------
int genPacketDuration(sim::Choices &c) {
  static const int common[] = {128, 64, 100, 256, 8, 10, 16, 32, 50, 127, 512, 1000, 1024, 4096};
  uint32_t k = c.draw(20);
  if (k < 14) {
    return common[k];
  }
  switch (k) {
  case 14: return c.pick({1, 2, 3, 7});
  case 15: return c.pick({65535, 65536, 1000000, 16777215, 8388608});
  default: return (int)c.range(4, 3000);
  }
}
unsigned genTimescale(sim::Choices &c, unsigned most) {
  return std::min(most, c.pick<unsigned>({1000, 100, 500, 8000, 44100, 48000, 10, 1, 1000000, 0x7fffffff, c.draw(200000) + 1}));
}

namespace {
struct Gen {
  sim::Sim &s;
  sim::Choices &c;
  const GenOpts &o;
  Gen(sim::Sim &si, const GenOpts &op) : s(si), c(si.c()), o(op) {}
  bool json() const { return o.fmt == Fmt::Json; }
  bool stream() const { return o.fmt == Fmt::Stream; }
  uint32_t most = 0; // keyframes of the next effect, 0: the usual

  std::string str(uint32_t kind) {
    static const char *pool[] = {"", "a", "haptics", "A longer description, with punctuation: (x)"};
    uint32_t k = c.draw(12);
    if (k < 4) {
      return pool[k];
    }
    if (k == 4) {
      return std::string(kind == 0 ? 255 : 128, 'q');
    }
    if (k == 5 && !json()) {
      std::string r;
      for (uint32_t i = 0, n = c.range(1, 6); i < n; i++) {
        r += (char)c.draw(256);
      }
      return r;
    }
    if (k == 6) {
      return "\xc3\xa9t\xc3\xa9 \"quoted\\\"\n\ttab";
    }
    std::string r;
    for (uint32_t i = 0, n = c.range(1, 12); i < n; i++) {
      r += (char)('a' + c.draw(26));
    }
    return r;
  }
  std::string semantic() {
    uint32_t i = c.draw((uint32_t)stringToEffectSemantic.size());
    auto it = stringToEffectSemantic.begin();
    std::advance(it, i);
    return it->first;
  }
  // a value of a quantised member need not lie on a step
  double beside() { return c.pick({0.3, -0.3, 0.0, 0.45}); }
  float ampl() {
    uint32_t i = c.pick<uint32_t>({128, 0, 255, c.draw(256)});
    if (json() && !o.portable) {
      return (float)((int)i - 128) / 128;
    }
    if (i == 0 && c.chance(50)) {
      return -1.0F;
    }
    return i >= 255 ? 1.0F : (float)(((double)i + beside()) / 255 * 2 - 1);
  }
  float phase() {
    uint32_t i = c.pick<uint32_t>({0, 65535, c.draw(65535)});
    if (i == 65535) {
      return haptics::io::MAX_PHASE;
    }
    return (float)(((double)i + (i == 0 ? 0.3 : beside())) / 65535 * haptics::io::MAX_PHASE);
  }
  float quarter(uint32_t max) { return (float)c.draw(max * 4) / 4; }
  // Over the whole range of a float member, its ends included.
  float wide(int lo, int hi) {
    if (json()) {
      return quarter(9999);
    }
    uint32_t k = c.draw(10);
    return k == 0 ? (float)hi : k == 1 ? (float)lo : k == 2 ? (float)hi - 0.25F
                  : (float)lo + quarter((uint32_t)(hi - lo));
  }
  int freq() { return (int)c.pick<uint32_t>({0, 1, 100, 65535, c.draw(65536)}); }

  Effect effect(BandType bt, bool lib, int depth, long pos) {
    Effect e;
    e.setPosition((int)pos);
    if (bt == BandType::VectorialWave || lib || (json() && bt == BandType::Transient && c.chance(40))) {
      if (!json() || !lib || c.chance(70)) {
        if (c.chance(60)) {
          e.setPhase(phase());
        }
        if (c.chance(60)) {
          e.setBaseSignal((BaseSignal)c.draw(5));
        }
      }
    }
    if (c.chance(25)) {
      std::string sm = semantic();
      e.setSemantic(sm);
    }
    uint32_t n = c.chance(20) ? c.range(3, 6) : c.range(1, 3);
    if (!json() && depth == 0 && !lib && c.chance(1)) {
      n = c.range(100, 300);
    }
    if (depth > 0 || lib) {
      n = c.draw(4);
    }
    if (most != 0) {
      n = c.range(256, most);
    }
    long rel = 0;
    int pd = o.packetDuration;
    for (uint32_t i = 0; i < n; i++) {
      Keyframe k;
      if (i > 0 || c.chance(30)) {
        rel += c.pick<long>({1, 0, pd - 1, pd, pd + 1, (long)c.draw((uint32_t)pd * 2 + 1)});
      }
      const long most = (stream() || o.portable) && pd < 256 ? 60000 : 65535;
      if (rel > most) {
        rel = most;
      }
      k.setRelativePosition((int)rel);
      if (bt == BandType::Transient && !lib) {
        k.setAmplitudeModulation(ampl());
        k.setFrequencyModulation(freq());
      } else if (bt == BandType::Curve && !lib) {
        k.setAmplitudeModulation(ampl());
      } else {
        uint32_t m = c.draw(4);
        if (m != 1) {
          k.setAmplitudeModulation(ampl());
        }
        if (m >= 1 && m != 3) {
          k.setFrequencyModulation(freq());
        }
        if (m == 3 && c.chance(50)) {
          k.setAmplitudeModulation(std::nullopt);
        }
        if (lib && c.chance(15)) {
          k.setRelativePosition(std::nullopt);
        }
      }
      e.addKeyframe(k);
    }
    return e;
  }
};
} // namespace

Haptics generate(sim::Sim &s, const GenOpts &o) {
  Gen g(s, o);
  auto &c = g.c;
  const bool json = g.json(), stream = g.stream(), binary = o.fmt == Fmt::Binary;
  Haptics h;
  std::string t;
  t = json ? c.pick<std::string>({"2023", "2024", "2023-1"}) : "2023" + g.str(1).substr(0, 20);
  h.setVersion(t);
  t = c.pick<std::string>({"Main", "Simple Parametric"});
  const bool simple = json && t == "Simple Parametric";
  h.setProfile(t);
  h.setLevel((uint8_t)c.range(1, 2));
  const bool level1 = h.getLevel() == 1;
  t = json ? c.pick<std::string>({"2024-01-31T12:00:00", "2023-06-15T00:00:00"}) : g.str(0);
  h.setDate(t);
  t = g.str(0);
  h.setDescription(t);
  // Rarely, an experience with one list much longer than the usual ones.
  enum Wide { NONE, PERCEPTIONS, LIBRARY, CHANNELS, VERTICES, BANDS, DEVICES, AVATARS, KEYFRAMES, TIMELINE, TARGETS, WAVELET, EFFECTS, LAST };
  const auto wide = (Wide)(o.empties && c.chance(6) ? c.range(1, LAST - 1) : 0);
  const uint32_t wideAt = wide ? c.draw(2) : 0;
  unsigned ts = genTimescale(c, json ? 48000 : 0x7fffffff);
  if (binary || simple || o.portable) {
    ts = 1000;
  }
  if (c.chance(85) || binary || o.portable) {
    h.setTimescale(ts);
  } else {
    h.setTimescale(std::nullopt);
  }
  std::vector<int> avatarIds;
  const uint32_t na = wide == AVATARS ? c.pick<uint32_t>({40, 130, 255}) : c.chance(40) ? c.range(1, 3) : 0;
  for (uint32_t i = 0; i < na; i++) {
    int id = json ? (na > 3 ? (int)i + 1 : (int)(i + 1) * 7) : c.pick<int>({0, 255, 1, (int)c.draw(256), (int)c.draw(256)});
    Avatar a(id, (int)c.draw(256), (AvatarType)c.draw(4));
    if (a.getType() == AvatarType::Custom) {
      std::string mesh = json ? "https://example.org/mesh.obj" : g.str(0);
      a.setMesh(mesh);
    }
    avatarIds.push_back(id);
    h.addAvatar(a);
  }
  if (o.syncs) {
    for (uint32_t i = 0, n = c.draw(4); i < n; i++) {
      Sync sy((int)c.draw((uint32_t)(o.windows * o.packetDuration)));
      if (json && c.chance(30)) {
        sy.setTimescale(genTimescale(c, 48000));
      }
      h.addSync(sy);
    }
  }
  static const int percIds[] = {0, 1, 7, 254, 255};
  const uint32_t np = wide == PERCEPTIONS ? c.pick<uint32_t>({3, 5, 40, 130}) : c.chance(40) ? c.range(2, 3) : 1;
  const long gapAt = o.gaps && stream && c.chance(5) ? (long)c.draw((uint32_t)o.windows) : -1;
  long gap = gapAt < 0 ? 0 : c.chance(15) ? (long)c.range(100, 600) : (long)c.range(1, 40);
  if (gapAt >= 0 && o.packetDuration >= 1000 && c.chance(30)) {
    // around and beyond the largest duration a unit can state
    gap = c.pick<long>({1, 1, 2, 3}) * (16777216 / o.packetDuration) + c.pick<long>({0, 1, -1, 5, -5});
  }
  gap = std::max(0L, std::min(gap, 1000000000L / o.packetDuration));
  uint32_t pbase = c.draw(5);
  const int pd = o.packetDuration;
  for (uint32_t i = 0; i < np; i++) {
    int pid = np > 5 ? (int)i : percIds[(pbase + i) % 5];
    bool spatial = o.spatial && c.chance(12);
    PerceptionModality mod;
    if (spatial) {
      mod = c.pick({PerceptionModality::VibrotactileTexture, PerceptionModality::Stiffness,
                    PerceptionModality::Friction});
    } else {
      mod = c.pick({PerceptionModality::Vibrotactile, PerceptionModality::Other,
                    PerceptionModality::Pressure, PerceptionModality::Temperature,
                    PerceptionModality::Electrotactile, PerceptionModality::Force, PerceptionModality::Acceleration,
                    PerceptionModality::Velocity, PerceptionModality::Position, PerceptionModality::Water,
                    PerceptionModality::Wind});
    }
    if (simple && level1) {
      mod = spatial ? c.pick({PerceptionModality::VibrotactileTexture, PerceptionModality::Stiffness})
                    : c.pick({PerceptionModality::Vibrotactile, PerceptionModality::Force});
    }
    int av = avatarIds.empty() ? (json ? 0 : c.pick({0, -1, 3}))
                               : avatarIds[c.draw((uint32_t)avatarIds.size())];
    Perception p(pid, av, g.str(0), mod);
    if (c.chance(30)) {
      p.setPriority((int)c.range(json ? 0 : 1, 255));
    }
    if (c.chance(40)) {
      p.setUnitExponent((int8_t)((int)c.draw(256) - 128));
    }
    if (c.chance(40)) {
      p.setPerceptionUnitExponent((int8_t)((int)c.draw(256) - 128));
    }
    if (c.chance(25)) {
      std::string sch = c.chance(50) ? "urn:mpeg:mpegi:haptics:effectsemantic:2023" : json ? "urn:example:semantics" : g.str(0);
      p.setEffectSemanticScheme(sch);
    }
    std::vector<int> devs;
    const uint32_t nd = wide == DEVICES && i == 0 ? c.pick<uint32_t>({40, 130, 255}) : c.chance(40) ? c.range(1, 3) : 0;
    for (uint32_t d = 0; d < nd; d++) {
      int id = nd > 3 ? (int)d : d == 0 && c.chance(40) ? 0 : d == 2 && c.chance(30) ? 254 : (int)d * 60 + (int)c.draw(d == 2 ? 135 : 60);
      ReferenceDevice r(id, g.str(0));
      devs.push_back(id);
      if (c.chance(50)) {
        r.setBodyPartMask(c.pick<uint32_t>({1, 0x7fffffff, c.draw(1u << 31), 0xffffffff}));
      }
      uint32_t m = c.draw(1u << 12);
      float base = g.quarter(1000) + 1;
      float room = c.pick<float>({1000, 0, 0.25F, 3500}); // the resonance may be either end of the range
      if (m & 1) { r.setMaximumFrequency(json ? base + room + c.pick<float>({1000, 0}) : g.wide(0, 10000)); }
      if (m & 2) { r.setMinimumFrequency(json ? base : g.wide(0, 10000)); }
      if (m & 4) { r.setResonanceFrequency(json ? base + room : g.wide(0, 10000)); }
      if (m & 8) { r.setMaximumAmplitude(g.wide(0, 10000)); }
      if (m & 16) { r.setImpedance(g.wide(0, 10000)); }
      if (m & 32) { r.setMaximumVoltage(g.wide(0, 10000)); }
      if (m & 64) { r.setMaximumCurrent(g.wide(0, 10000)); }
      if (m & 128) { r.setMaximumDisplacement(g.wide(0, 10000)); }
      if (m & 256) { r.setWeight(g.wide(0, 10000)); }
      if (m & 512) { r.setSize(g.wide(0, 10000)); }
      if (m & 1024) { r.setCustom(g.wide(-10000, 10000)); }
      if (m & 2048) { r.setType((ActuatorType)c.draw(5)); }
      p.addReferenceDevice(r);
    }
    std::vector<int> libIds;
    if (o.library && c.chance(35)) {
      for (uint32_t l = 0, n = wide == LIBRARY ? c.pick<uint32_t>({40, 130, 300}) : c.range(1, 3); l < n; l++) {
        int id = (int)l * 3 + (int)c.draw(3) + (json ? 1 : 0);
        g.most = wide == KEYFRAMES && l == 0 ? 300 : 0;
        Effect e = g.effect(BandType::VectorialWave, true, 0, c.pick<long>({0, 1, 100, json ? 1000000 : 16777215}));
        g.most = 0;
        e.setId(id);
        if (c.chance(15) && !libIds.empty()) {
          e = Effect(e.getPosition(), EffectType::Reference);
          e.setId(id);
        } else if (o.composites && !simple && c.chance(30)) {
          Effect comp(e.getPosition(), EffectType::Composite);
          comp.setId(id);
          for (uint32_t k = 0, m = wide == TIMELINE ? c.pick<uint32_t>({130, 300}) : c.range(1, 3); k < m; k++) {
            Effect in = g.effect(BandType::VectorialWave, true, 1, (long)c.draw(500));
            in.setId((int)(100 + l * 10 + k));
            if (o.composites && c.chance(15)) {
              Effect deep = g.effect(BandType::VectorialWave, true, 2, 3);
              deep.setId(900 + (int)k);
              Effect cc((int)c.draw(50), EffectType::Composite);
              cc.setId((int)(200 + l * 10 + k));
              cc.addTimelineEffect(deep);
              in = cc;
            }
            comp.addTimelineEffect(in);
          }
          e = comp;
        }
        libIds.push_back(id);
        p.addBasisEffect(e);
      }
    }
    static const int chanIds[] = {0, 1, 2, 255, 256, 32767, 65535, 32768};
    const uint32_t nc = wide == CHANNELS && i == 0 ? (json && level1 ? c.pick<uint32_t>({4, 127}) : c.pick<uint32_t>({4, 40, 128, 300})) : wide == BANDS ? 2 : np > 5 ? 1 : c.chance(35) ? c.range(2, 3) : 1;
    uint32_t cbase = c.draw(8);
    for (uint32_t k = 0; k < nc; k++) {
      Channel ch(nc > 8 ? (int)k * 3 : chanIds[(cbase + k) % 8], g.str(0), json ? g.quarter(100) : g.wide(-10000, 10000),
                 json ? g.quarter(100) : g.wide(0, 10000), c.chance(50) ? (json ? c.draw(1u << 31) : c.pick<uint32_t>({1u, 0xffffffffu, c.draw(1u << 31)})) : 0);
      if (c.chance(30)) {
        ch.setPriority((int)c.range(json ? 0 : 1, 255));
      }
      if (!devs.empty() && c.chance(70)) {
        ch.setReferenceDeviceId(devs[c.draw((uint32_t)devs.size())]);
      }
      if (c.chance(wide == TARGETS ? 80 : 25)) {
        int res[3];
        for (int &r : res) {
          r = json ? c.pick<int>({3, 0, 1, 127, (int)c.draw(128)}) : c.pick<int>({3, 0, 127, -128, (int)c.draw(256) - 128});
        }
        ch.setActuatorResolution(Vector((int8_t)res[0], (int8_t)res[1], (int8_t)res[2]));
        if (c.chance(60)) {
          std::vector<BodyPartTarget> b;
          for (uint32_t q = 0, m = wide == TARGETS ? c.pick<uint32_t>({130, 255}) : c.range(1, 3); q < m; q++) {
            auto it = bodyPartTargetToString.begin();
            std::advance(it, c.draw((uint32_t)bodyPartTargetToString.size()));
            b.push_back(it->first);
          }
          ch.setBodyPartTarget(b);
        }
        if (c.chance(60)) {
          std::vector<Vector> v;
          for (uint32_t q = 0, m = wide == TARGETS ? c.pick<uint32_t>({130, 255}) : c.range(1, 3); q < m; q++) {
            int at[3];
            for (int z = 0; z < 3; z++) { // the resolution itself is the last place a target can have
              at[z] = json ? c.pick<int>({0, res[z], (int)c.draw((uint32_t)res[z] + 1)}) : (int)c.draw(256) - 128;
            }
            v.emplace_back((int8_t)at[0], (int8_t)at[1], (int8_t)at[2]);
          }
          ch.setActuatorTarget(v);
        }
      }
      if (c.chance(30)) {
        ch.setFrequencySampling(c.pick<uint32_t>({8000, 1, 0x7fffffff, json ? 44100 : c.draw(1u << 30) + 1}));
        if (c.chance(70)) {
          ch.setSampleCount(c.pick<uint32_t>({0, 1000, 0x7fffffff}));
        }
      }
      if (c.chance(25)) {
        ch.setDirection(json ? c.pick({Vector(127, 0, 0), Vector(0, -127, 0), Vector(0, 0, 127), Vector(-73, 73, -74), Vector(0, -90, 90), Vector(-126, 5, 0), Vector(102, -76, 3)})
                             : Vector((int8_t)c.draw(256), (int8_t)c.draw(256), (int8_t)c.draw(256)));
      }
      for (uint32_t q = 0, m = wide == VERTICES ? c.pick<uint32_t>({130, 260, 1000}) : c.chance(30) ? c.range(1, 4) : 0; q < m; q++) {
        int v = (int)c.pick<uint32_t>({0, 1, 0x7fffffff, c.draw(1u << 31)});
        ch.addVertex(v);
      }
      const uint32_t nb = wide == BANDS && i == 0 ? (json ? (level1 ? 7 : c.pick<uint32_t>({8, 63})) - (o.bulk > 0 ? 1 : 0) : c.pick<uint32_t>({9, 130, 200, 255})) : nc > 8 || np > 5 ? 1 + c.draw(2) : c.chance(30) ? c.range(2, 3) : 1;
      for (uint32_t b = 0; b < nb; b++) {
        auto bt = (BandType)c.draw(o.wavelet && !simple ? 4 : 3);
        int low = (int)c.draw(2000);
        int up = low + (int)c.pick<uint32_t>({500, 1, 60000, 0});
        int bl = 0;
        if (bt == BandType::WaveletWave) {
          if (o.portable) {
            bl = 1 << c.range(4, 7);
            up = 1000;
            low = (int)c.draw(200);
          } else if (stream) {
            bl = (int)c.pick<uint32_t>({128, 16, 100, 255, 1, (uint32_t)std::min(255, pd), c.range(1, 255)});
            up = low + (int)c.pick<uint32_t>({1000, 0, 500, 60000});
          } else if (binary) {
            // 2^k samples, k>=4, an integral number of ticks at 1000 Hz: samples*1000/upper
            up = (int)c.pick<uint32_t>({1000, 500, 250, 2000, 4000});
            low = (int)c.draw(200);
            int k2 = (int)c.range(6, 9);
            bl = (1 << k2) * 1000 / up;
          } else {
            bl = 1 << c.range(1, 9);
          }
        }
        Band bd(bt, low, up);
        if (bt == BandType::WaveletWave) {
          bd.setBlockLength(bl);
        }
        if (bt == BandType::Curve && c.chance(70)) {
          bd.setCurveType((CurveType)c.draw(6));
        }
        if (c.chance(30)) {
          bd.setPriority((int)c.range(json ? 0 : 1, 255));
        }
        uint32_t ne = o.empties && c.chance(10) ? 0
                      : wide == EFFECTS && b == 0 && k == 0 && i == 0 ? c.pick<uint32_t>({130, 260, 400})
                      : nb > 9 ? 1 : nc > 8 || np > 5 ? c.draw(2)
                      : o.big && c.chance(30) ? c.range(4, 12) : c.range(1, 4);
        if (bt == BandType::WaveletWave) {
          long maxBlocks = (long)o.windows * pd / bl;
          if (maxBlocks > 12) {
            maxBlocks = 12;
          }
          if (maxBlocks < 1) {
            maxBlocks = 1;
          }
          ne = ne == 0 ? 0 : c.range(1, (uint32_t)maxBlocks);
          for (uint32_t x = 0; x < ne; x++) {
            Effect e((int)(x * (uint32_t)bl), EffectType::Basis);
            if (c.chance(25)) {
              std::string sm = g.semantic();
              e.setSemantic(sm);
            }
            std::vector<unsigned char> w;
            for (uint32_t q = 0, m = wide == WAVELET && x == wideAt ? c.pick<uint32_t>({1000, 5000, 65535}) : c.chance(5) ? 300 : c.draw(24); q < m; q++) {
              w.push_back((unsigned char)c.draw(256));
            }
            e.setWaveletBitstream(w);
            if (json) {
              e.setId((int)x + 1);
            }
            bd.addEffect(e);
          }
          ch.addBand(bd);
          continue;
        }
        std::set<int> used;
        std::vector<Effect> fx;
        for (uint32_t x = 0; x < ne; x++) {
          long w = (long)c.draw((uint32_t)o.windows);
          w += gapAt >= 0 && w >= gapAt ? gap : 0;
          long pos = w * pd + c.pick<long>({0, 1, pd - 1, (long)c.draw((uint32_t)pd)});
          if (!stream && o.far && c.chance(3)) {
            pos = c.pick<long>({33554431, 16777216, 65536, 33554430});
          }
          if (binary || o.portable) {
            pos = std::min(pos, 33554431L);
          }
          if ((stream || o.portable) && spatial) {
            pos = std::min(pos, 16777215L); // the position field is signed
          }
          if (!libIds.empty() && c.chance(25)) {
            Effect r((int)pos, EffectType::Reference);
            r.setId(libIds[c.draw((uint32_t)libIds.size())]);
            fx.push_back(r);
            continue;
          }
          if (o.composites && !stream && !simple && c.chance(15)) {
            Effect comp((int)pos, EffectType::Composite);
            if (json) {
              comp.setId((int)x + 1);
            }
            for (uint32_t q = 0, m = c.range(1, 3); q < m; q++) {
              if (!libIds.empty() && c.chance(40)) {
                Effect r((int)c.draw(500), EffectType::Reference);
                r.setId(libIds[c.draw((uint32_t)libIds.size())]);
                comp.addTimelineEffect(r);
              } else {
                Effect in = g.effect(bt, false, 1, (long)c.draw(500));
                if (json) {
                  in.setId((int)(x * 10 + q) + 50);
                }
                comp.addTimelineEffect(in);
              }
            }
            fx.push_back(comp);
            continue;
          }
          g.most = wide == KEYFRAMES && x == wideAt ? 300 : 0;
          Effect e = g.effect(bt, false, 0, pos);
          g.most = 0;
          if (o.empties && c.chance(6)) {
            e = Effect((int)pos, EffectType::Basis);
          }
          if (json || o.explicitIds || c.chance(40)) {
            int id = json ? (int)x + 1
                          : (int)c.pick<uint32_t>({x, x + 1, x + 200, x + 40000, 65535, c.draw(60000)});
            if (used.insert(id).second) {
              e.setId(id);
            }
          }
          fx.push_back(e);
        }
        if (c.chance(80)) {
          std::stable_sort(fx.begin(), fx.end(), [](const Effect &a, const Effect &b2) {
            return a.getPosition() < b2.getPosition();
          });
        }
        for (auto &e : fx) {
          bd.addEffect(e);
        }
        ch.addBand(bd);
      }
      if (o.empties && c.chance(4)) {
        ch.clearBands();
      }
      if (o.bulk > 0 && i + 1 == np && k + 1 == nc) {
        Band bd(BandType::Curve, 10, 300);
        bd.setCurveType(CurveType::Linear);
        for (int x = 0; x < o.bulk; x++) {
          Effect e((int)((long)x * std::min((long)o.windows * pd, spatial || binary ? 16000000L : 1000000000L) / o.bulk), EffectType::Basis);
          for (int q = 0; q < 2; q++) {
            Keyframe kf;
            kf.setRelativePosition(q * 3);
            kf.setAmplitudeModulation(json && !o.portable ? (float)(x % 128) / 128 : (float)(((x % 255) + 0.3) / 255 * 2 - 1));
            e.addKeyframe(kf);
          }
          bd.addEffect(e);
        }
        ch.addBand(bd);
      }
      p.addChannel(ch);
    }
    h.addPerception(p);
  }
  return h;
}
} // namespace model
