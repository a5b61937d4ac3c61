// T01 - T03: the command line tools, run as functions of the simulated process.
#include "store.h"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Synthesizer/include/Helper.h>
#include <algorithm>
#include <iostream>

auto haptics_decoder_main(int argc, char *argv[]) -> int __attribute__((weak));
auto haptics_encoder_main(int argc, char *argv[]) -> int __attribute__((weak));
auto haptics_synthesizer_main(int argc, char *argv[]) -> int __attribute__((weak));

using namespace store;
using env::DiskPlan;
using sim::Sim;

namespace {
using Main = int (*)(int, char **);
struct Exit {
  int code = 0;
  std::string how;
  bool good() const { return code == 0; }
};
// An exception that leaves main ends the process abnormally, which is a failure status.
Exit runTool(Main m, std::vector<std::string> args) {
  std::vector<char *> argv;
  for (auto &a : args) {
    argv.push_back(&a[0]);
  }
  Exit e;
  sim::budget();
  try {
    e.code = m((int)argv.size(), argv.data());
    e.how = "exit status " + std::to_string(e.code);
  } catch (const std::exception &x) {
    e.code = 134;
    e.how = std::string("abnormal end (") + x.what() + ")";
  }
  std::cout.clear();
  return e;
}
std::string cmd(const std::vector<std::string> &a) {
  std::string r;
  for (auto &x : a) {
    r += (r.empty() ? "" : " ") + x;
  }
  return r;
}
// Faults while the tool reads one or more inputs and writes its output.
DiskPlan toolFaults(Sim &s, size_t in, size_t out) {
  auto &f = s.f();
  DiskPlan p = env::DiskPlan();
  p.frag = f.chance(50);
  p.eintr = f.chance(30);
  switch (f.draw(6)) {
  case 0:
    break;
  case 1:
    p.failOpen = (int)f.draw(3);
    p.openErrno = f.pick({13, 24, 28, 5});
    break;
  case 2:
    p.failClose = (int)f.draw(3);
    p.closeLosesTail = f.chance(50);
    break;
  case 3:
    p.failReadAt = (int64_t)f.draw((uint32_t)in + 1);
    break;
  default:
    p.failWriteAt = (int64_t)(f.chance(20) ? out - std::min<size_t>(out, 1) : f.draw((uint32_t)out + 1));
    p.writeErrno = f.pick({28, 5});
  }
  return p;
}
std::string damageInput(Sim &s, const std::string &path, const std::string &bytes, bool binary) {
  auto &f = s.f();
  std::string how;
  switch (f.draw(7)) {
  case 0:
    env::disk.files.erase(path);
    s.hit("fault:missing_file");
    return ", input missing";
  case 1:
  case 2: {
    size_t n = f.draw((uint32_t)bytes.size());
    env::disk.files[path] = bytes.substr(0, n);
    s.hit("fault:truncated_file");
    return ", input cut to " + std::to_string(n) + " bytes";
  }
  case 3:
    env::disk.files[path].clear();
    s.hit("fault:empty_file");
    return ", input empty";
  case 4:
    if (binary) {
      env::disk.files[path] = mutate(s, bytes, how);
      return ", input damaged:" + how;
    }
    return "";
  default:
    return "";
  }
}
struct Attempt {
  Exit e;
  std::string stored;
  bool exists = false, hard = false, outCloseFailed = false;
};
Attempt attempt(Sim &s, Main m, const std::vector<std::string> &args, const std::string &out, const DiskPlan &p, const std::string &ohm = "") {
  Attempt a;
  bystanders(s, out);
  auto before = env::disk.files;
  env::diskBegin(p);
  a.e = runTool(m, args);
  auto &d = env::disk;
  a.exists = d.files.count(out) != 0;
  a.stored = a.exists ? d.files[out] : std::string();
  a.hard = d.hardFault();
  int closes = d.firedClose;
  a.outCloseFailed = closes > 0 && p.closeLosesTail;
  s.check(d.openNow == 0, "handle-leak", cmd(args) + ": a file is still open at exit");
  env::diskEnd();
  const std::string other = foreignChange(before, {out, ohm});
  s.check(other.empty(), "other-file-changed", cmd(args) + ": " + other);
  return a;
}
void judge(Sim &s, const Attempt &a, bool usable, const std::string &want, const std::string &how, const std::string &brief) {
  s.log(how + ": " + a.e.how);
  s.cover(sim::fnv(how + a.e.how));
  if (a.e.good()) {
    s.hit("tool_succeeded");
    s.check(usable, "unusable-input-success", how + ": the tool exits with success although its input is unusable\n" + brief);
    s.check(a.exists && a.stored == want, "incomplete-output-success",
            how + ": the tool exits with success, its output is not the complete result (" + std::to_string(a.stored.size()) + " of " +
                std::to_string(want.size()) + " bytes)\n" + brief);
  } else {
    s.hit("tool_failed");
    s.check(a.hard || !usable, "fault-free-failure", how + ": " + a.e.how + " although nothing went wrong\n" + brief);
  }
}
GenDoc dated() {
  GenDoc g;
  g.validDate = true;
  return g;
}
void leftover(Sim &s, const std::string &out, const std::string &want) {
  if (s.c().chance(40)) {
    env::disk.files[out] = s.c().chance(50) ? want + "tail of an older file" : std::string(s.c().draw(200), 'z');
  } else {
    env::disk.files.erase(out);
  }
}
void badUsage(Sim &s, Main m, const std::string &tool, const std::string &in, const std::string &out, bool outputNeeded) {
  std::vector<std::vector<std::string>> bad = {{tool}, {tool, "-o", out}, {tool, "-f"}, {tool, "-f", in + ".missing", "-o", out}};
  if (outputNeeded) {
    bad.push_back({tool, "-f", in});
    bad.push_back({tool, "-f", in, "-o"});
  }
  auto &args = bad[s.c().draw((uint32_t)bad.size())];
  env::disk.files.erase(out);
  Attempt a = attempt(s, m, args, out, {});
  s.log(cmd(args) + ": " + a.e.how);
  s.check(!a.e.good(), "bad-usage-success", cmd(args) + " exits with success");
  s.hit("bad_usage");
}
} // namespace

// ---------------------------------------------------------------- T01: decoder
void scenT01(Sim &s) {
  if (haptics_decoder_main == nullptr) {
    s.fail("tool-missing", "the decoder tool could not be built");
  }
  World w = makeWorld(s, STREAM, dated());
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  env::clock.step = 0;
  std::string out = std::string(env::ROOT) + "out.hjif";
  // what the library makes of an input that can be read without trouble
  auto expected = [&](bool &usable) -> std::string {
    std::string in = w.path, r;
    env::diskBegin({});
    haptics::types::Haptics h;
    usable = false;
    try {
      usable = haptics::io::IOStream::readFile(in, h) && haptics::io::IOJson::writeFile(h, std::string(env::ROOT) + "ref.hjif");
    } catch (const std::exception &) {
    }
    env::diskEnd();
    if (usable) {
      r = env::disk.files[std::string(env::ROOT) + "ref.hjif"];
    }
    return r;
  };
  for (uint32_t i = 0, n = s.c().range(1, 5); i < n; i++) {
    if (s.c().chance(10)) {
      badUsage(s, haptics_decoder_main, "Decoder", w.path, out, true);
      continue;
    }
    env::disk.files[w.path] = w.bytes;
    std::string how = s.faulty && s.f().chance(50) ? damageInput(s, w.path, w.bytes, true) : "";
    bool usable;
    std::string want = expected(usable);
    leftover(s, out, want);
    DiskPlan p = s.faulty ? toolFaults(s, w.bytes.size(), want.size()) : DiskPlan();
    std::vector<std::string> args = s.c().chance(50) ? std::vector<std::string>{"Decoder", "-f", w.path, "-o", out}
                                                     : std::vector<std::string>{"Decoder", "--output", out, "--file", w.path};
    Attempt a = attempt(s, haptics_decoder_main, args, out, p);
    judge(s, a, usable, want, cmd(args) + how + ", " + planText(p), w.d.brief());
  }
}

// ---------------------------------------------------------------- T02: encoder
void scenT02(Sim &s) {
  if (haptics_encoder_main == nullptr) {
    s.fail("tool-missing", "the encoder tool could not be built");
  }
  using namespace haptics;
  Kind kind = s.c().pick({AHAP, IVS, JSON, OHM});
  bool stream = s.c().chance(50);
  int pd = s.c().chance(50) ? (int)s.c().pick({128, 64, 100, 1000}) : 0;
  std::vector<std::pair<std::string, std::string>> inputs; // path, bytes; the first is the argument
  std::string R = env::ROOT, brief;
  World w;
  if (kind == OHM) {
    env::diskReset(s);
    std::string head = "OHM ", desc = "d";
    tools::OHMData o(head, 1, desc);
    uint32_t n = s.c().range(1, 3);
    inputs.push_back({R + "set.ohm", ""});
    for (uint32_t i = 0; i < n; i++) {
      Kind ek = s.c().chance(50) ? AHAP : IVS;
      tools::OHMData::HapticElementMetadata e;
      e.elementFilename = "e" + std::to_string(i) + (ek == AHAP ? s.c().pick({".ahap", ".json"}) : s.c().pick({".ivs", ".xml"}));
      const bool unknown = s.c().draw(12) == 11; // a kind of element the encoder does not know
      if (unknown) {
        e.elementFilename = "e" + std::to_string(i) + s.c().pick({".hjif", ".txt", "", ".hmpg"});
      }
      e.elementDescription = "element";
      e.numHapticChannels = 1;
      tools::OHMData::HapticChannelMetadata ch;
      ch.channelDescription = "c";
      ch.gain = 1;
      ch.bodyPartMask = (tools::OHMData::Body)1;
      e.channelsMetadata.push_back(ch);
      o.addHapticElementMetadata(e);
      Doc d = genDoc(s, ek);
      inputs.push_back({R + e.elementFilename, d.source});
      brief += e.elementFilename + ":\n" + d.source + "\n";
    }
    env::diskBegin({});
    bool ok = o.writeFile(inputs[0].first);
    env::diskEnd();
    s.check(ok, "healthy-save-fails", "the OHM file could not be saved");
    inputs[0].second = env::disk.files[inputs[0].first];
  } else {
    GenDoc g = dated();
    g.composites = false;
    w = makeWorld(s, kind, g);
    if (!w.ok) {
      s.hit("skipped");
      return;
    }
    const char *ext = kind == AHAP ? s.c().pick({".ahap", ".json"}) : kind == IVS ? s.c().pick({".ivs", ".xml"}) : ".hjif";
    inputs.push_back({R + "in" + ext, w.bytes});
    brief = w.d.brief();
  }
  env::clock.step = 0;
  std::string out = R + (stream ? "out.hmpg" : "out.hjif");
  std::vector<std::string> args = {"Encoder", "-f", inputs[0].first, "-o", out};
  unsigned ts = 1000;
  if (stream) {
    args.push_back(s.c().chance(50) ? "-b" : "--binary");
    if (s.c().draw(12) == 11) { // no unit can last that long
      pd = -1;
      args.push_back("--packet_duration");
      args.push_back(s.c().pick({"0", "-1", "16777216", "-128", "2147483647", "x"}));
    } else if (pd != 0) {
      args.push_back("--packet_duration");
      args.push_back(std::to_string(pd));
    }
  }
  const bool refactor = s.c().chance(15), linearize = s.c().chance(15);
  if (refactor) {
    args.push_back(s.c().chance(50) ? "-r" : "--refactor");
  }
  if (linearize) {
    args.push_back(s.c().chance(50) ? "-l" : "--linearize");
  }
  if (kind != JSON && s.c().chance(30)) {
    ts = s.c().pick<unsigned>({8000, 100});
    args.push_back("-ts");
    args.push_back(std::to_string(ts));
  }
  auto install = [&] {
    env::disk.files.clear();
    for (auto &i : inputs) {
      env::disk.files[i.first] = i.second;
    }
  };
  // what the library makes of inputs that can be read without trouble
  auto expected = [&](bool &usable) -> std::string {
    std::string ref = R + "ref." + (stream ? "hmpg" : "hjif");
    usable = false;
    env::diskBegin({});
    try {
      types::Haptics h;
      h.setTimescale(ts);
      bool ok = true;
      std::string in = inputs[0].first;
      if (kind == JSON) {
        ok = io::IOJson::loadFile(in, h);
      } else if (kind == OHM) {
        tools::OHMData o;
        ok = o.loadFile(in);
        if (ok) {
          h.loadMetadataFromOHM(o);
        }
        ok = ok && o.getHapticElementMetadataSize() == h.getPerceptionsSize();
        for (size_t i = 0; ok && i < o.getHapticElementMetadataSize(); i++) {
          std::string f = R + o.getHapticElementMetadataAt((int)i).elementFilename;
          types::Perception p = h.getPerceptionAt((int)i);
          bool ahap = f.find(".ahap") != std::string::npos || f.find(".json") != std::string::npos;
          bool ivs = f.find(".ivs") != std::string::npos || f.find(".xml") != std::string::npos;
          ok = env::disk.files.count(f) != 0 &&
               (ahap ? encoder::AhapEncoder::encode(f, p, ts) : ivs ? encoder::IvsEncoder::encode(f, p, ts) : EXIT_FAILURE) == EXIT_SUCCESS;
          if (ok) {
            h.replacePerceptionAt((int)i, p);
          }
        }
      } else {
        types::Perception p(0, 0, std::string(), types::PerceptionModality::Other);
        ok = (kind == AHAP ? encoder::AhapEncoder::encode(in, p, ts) : encoder::IvsEncoder::encode(in, p, ts)) == EXIT_SUCCESS;
        h.addPerception(p);
      }
      if (ok && refactor) {
        h.refactor();
      }
      if (ok && linearize) {
        h.linearize();
      }
      usable = ok && pd >= 0 && (stream ? io::IOStream::writeFile(h, ref, pd == 0 ? 128 : pd) : io::IOJson::writeFile(h, ref));
    } catch (const std::exception &) {
    }
    env::diskEnd();
    return usable ? env::disk.files[ref] : std::string();
  };
  for (uint32_t i = 0, n = s.c().range(1, 5); i < n; i++) {
    install();
    if (s.c().chance(10)) {
      badUsage(s, haptics_encoder_main, "Encoder", inputs[0].first, out, false);
      continue;
    }
    std::string how;
    if (s.faulty && s.f().chance(50)) {
      uint32_t k = s.f().draw((uint32_t)inputs.size());
      how = damageInput(s, inputs[k].first, inputs[k].second, false);
      if (!how.empty()) {
        how += " (" + inputs[k].first + ")";
      }
    }
    bool usable;
    std::string want = expected(usable);
    leftover(s, out, want);
    size_t total = 0;
    for (auto &x : inputs) {
      total += x.second.size();
    }
    DiskPlan p = s.faulty ? toolFaults(s, total, want.size()) : DiskPlan();
    Attempt a = attempt(s, haptics_encoder_main, args, out, p);
    judge(s, a, usable, want, cmd(args) + how + ", " + planText(p), brief);
  }
}

// ---------------------------------------------------------------- T03: synthesizer
void scenT03(Sim &s) {
  if (haptics_synthesizer_main == nullptr) {
    s.fail("tool-missing", "the synthesizer tool could not be built");
  }
  using namespace haptics;
  GenDoc g = dated();
  g.composites = false;
  g.renderable = true;
  g.wavelet = false;
  g.bulk = false;
  World w = makeWorld(s, s.c().chance(50) ? STREAM : JSON, g);
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  std::string R = env::ROOT, out = R + "out.wav", ohm = R + "out.ohm";
  bool withOhm = s.c().chance(30);
  // a sampling frequency that keeps the rendering small
  long last = 1;
  for (auto &p : w.d.src.p) {
    for (auto &c : p.ch) {
      for (auto &b : c.bands) {
        for (auto &e : b.effects) {
          long t = e.pos + (b.type == 1 ? b.blockLength : 0);
          for (auto &k : e.kfs) {
            t = std::max(t, e.pos + k.pos);
          }
          last = std::max(last, t);
        }
      }
    }
  }
  unsigned ts = w.d.src.timescale == 0 ? 1000 : w.d.src.timescale;
  long fs = std::max<long>(1, std::min<long>(8000, (long)((double)s.c().range(20, 400) * ts / (double)last)));
  auto &c = s.c();
  int pad = c.chance(25) ? (int)c.pick<uint32_t>({1, 0, 50, c.draw(400)}) : -1;
  std::vector<std::string> args = {"Synthesizer"};
  auto option = [&](const char *a, const char *b, const std::string &v) {
    args.push_back(c.chance(70) ? a : b);
    if (!v.empty()) {
      args.push_back(v);
    }
  };
  option("-f", "--file", w.path);
  option("-o", "--output", out);
  option("-fs", "--sampling_frequency", std::to_string(fs));
  if (pad >= 0) {
    option("--pad", "--pad", std::to_string(pad));
  }
  if (w.d.kind == STREAM) {
    option("-b", "--binary", "");
  }
  if (withOhm) {
    args.push_back("--generate_ohm");
  }
  // what the library makes of an input that can be read without trouble
  std::string refOhm;
  auto expected = [&](bool &usable) -> std::string {
    const std::string r = R + "ref.wav", ro = R + "ref.ohm";
    usable = false;
    env::diskBegin({});
    try {
      types::Haptics h;
      std::string o = r;
      usable = w.d.kind == STREAM ? io::IOStream::readFile(w.path, h) : io::IOJson::loadFile(w.path, h);
      if (usable) {
        h.linearize();
        usable = synthesizer::Helper::playFile(h, synthesizer::Helper::getTimeLength(h), (int)fs, std::max(pad, 0), o);
      }
      if (usable && withOhm) {
        std::string rel = "out.wav", of = ro;
        tools::OHMData od = h.extractMetadataToOHM(rel);
        usable = od.writeFile(of);
      }
    } catch (const std::exception &) {
      usable = false;
    }
    env::diskEnd();
    std::string res = usable ? env::disk.files[r] : std::string();
    refOhm = usable && withOhm ? env::disk.files[ro] : std::string();
    env::disk.files.erase(r);
    env::disk.files.erase(ro);
    return res;
  };
  for (uint32_t i = 0, n = s.c().range(1, 5); i < n; i++) {
    env::disk.files = {{w.path, w.bytes}};
    if (s.c().chance(10)) {
      badUsage(s, haptics_synthesizer_main, "Synthesizer", w.path, out, false);
      continue;
    }
    std::string how;
    if (s.faulty && s.f().chance(40)) {
      how = damageInput(s, w.path, w.bytes, false);
    }
    bool usable;
    const std::string want = expected(usable);
    leftover(s, out, want);
    leftover(s, ohm, refOhm);
    DiskPlan p = s.faulty ? toolFaults(s, w.bytes.size(), want.size() + refOhm.size()) : DiskPlan();
    Attempt a = attempt(s, haptics_synthesizer_main, args, out, p, withOhm ? ohm : "");
    std::string what = cmd(args) + how + ", " + planText(p);
    judge(s, a, usable, want, what, w.d.brief());
    if (a.e.good() && withOhm) {
      s.check(env::disk.files[ohm] == refOhm, "incomplete-output-success", what + ": the tool exits with success, its OHM file is not complete\n" + w.d.brief());
    }
  }
}
