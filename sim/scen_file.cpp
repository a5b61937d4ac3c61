// F01 - F06: saving and loading on a simulated disk that fails, tears, splits and crashes.
#include "store.h"
#include "stream.h"
#include <IOHaptics/include/IOBinary.h>
#include <algorithm>
#include <cstring>

using namespace store;
using env::DiskPlan;
using sim::Sim;

namespace {
std::string firstDiff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    i++;
  }
  return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ", first difference at byte " +
         std::to_string(i);
}
std::string firstLineDiff(const std::string &a, const std::string &b) {
  size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    if (a[i] == '\n') {
      line = i + 1;
    }
    i++;
  }
  auto cut = [&](const std::string &x) { return line > x.size() ? std::string() : x.substr(line, x.find('\n', i) - line); };
  return "\n  expected " + cut(a) + "\n  got      " + cut(b);
}
// what a preceding program left at the path
void preexisting(Sim &s, const World &w) {
  switch (s.c().draw(5)) {
  case 1:
    env::disk.files[w.path] = w.bytes + std::string(s.c().range(1, 3000), 'x');
    break;
  case 2:
    env::disk.files[w.path] = std::string(s.c().range(0, 300), 'y');
    break;
  case 3:
    env::disk.files[w.path] = std::string(w.bytes.rbegin(), w.bytes.rend()) + w.bytes;
    break;
  case 4:
    env::disk.files[w.path] = w.bytes;
    break;
  default:
    env::disk.files.erase(w.path);
  }
}
void noHandles(Sim &s, World &w, const std::string &when) {
  auto &d = env::disk;
  s.check(d.openNow == 0 && d.badCloses == 0 && d.opened == d.closes, "handle-leak",
          when + ": " + std::to_string(d.opened) + " files opened, " + std::to_string(d.closes) + " closed, " +
              std::to_string(d.openNow) + " still open, " + std::to_string(d.badCloses) + " invalid closes\n" +
              w.d.brief());
}

struct StreamFile {
  std::vector<link::Unit> units;
  std::vector<size_t> at; // file offsets of the unit boundaries, 0 and size included
};
StreamFile unitsOf(Sim &s, World &w) {
  StreamFile f;
  std::vector<link::Bits> u;
  size_t at = 0;
  f.at.push_back(0);
  while (at < w.bytes.size()) {
    s.check(at + 9 <= w.bytes.size(), "framing", "the stream file ends inside a unit header\n" + w.d.brief());
    auto byte = [&](size_t i) { return (size_t)(unsigned char)w.bytes[at + i]; };
    link::Bits h;
    size_t len = 0;
    for (size_t i = 0; i < 9; i++) {
      for (int k = 7; k >= 0; k--) {
        h.push_back((byte(i) >> k) & 1);
      }
    }
    len = link::bitsAt(h, 36, 32);
    s.check(at + 9 + len <= w.bytes.size(), "framing", "the stream file ends inside a unit\n" + w.d.brief());
    for (size_t i = 0; i < len; i++) {
      for (int k = 7; k >= 0; k--) {
        h.push_back((byte(9 + i) >> k) & 1);
      }
    }
    at += 9 + len;
    u.push_back(h);
    f.at.push_back(at);
  }
  f.units = link::parse(s, u);
  return f;
}
// content of the first n units
model::CExp prefixContent(World &w, const StreamFile &f, size_t n) {
  std::vector<link::Window> win;
  for (size_t i = 0; i < n; i++) {
    const auto &u = f.units[i];
    if (u.type != link::INIT && u.type != link::SILENT) {
      win.push_back({u.start, u.end, true});
    }
  }
  return link::carried(w.d.src, win);
}
// Loads what is at the path after `size` bytes of the reference survived.
void expectFailOrPrefix(Sim &s, World &w, const Call &c, Loaded &l, size_t size, const std::string &how) {
  s.check(c.res != Res::THREW, "load-threw", how + ": loading threw " + c.what + "\n" + w.d.brief());
  if (size >= w.bytes.size()) {
    s.check(c.res == Res::OK, "complete-file-refused", how + ": the complete file was refused\n" + w.d.brief());
    std::string got = dumpLoaded(w.d.kind, l);
    s.check(got == w.dump, "wrong-content", how + ": loaded content differs" + firstLineDiff(w.dump, got) + "\n" + w.d.brief());
    return;
  }
  if (c.res == Res::FAIL) {
    s.hit("failure_reported");
    return;
  }
  if (w.d.kind == STREAM) {
    StreamFile f = unitsOf(s, w);
    for (size_t i = 1; i < f.at.size(); i++) {
      if (f.at[i] == size) {
        model::CExp want = model::pruned(prefixContent(w, f, i));
        model::CExp got = model::canon(l.h, model::Fmt::Stream);
        model::forgetIds(got, w.d.src); // bands are told by the whole initialisation, so not pruned yet
        got = model::pruned(got);
        std::string d = model::diff(want, got);
        s.check(d.empty(), "wrong-prefix", how + ": content is not that of the first " + std::to_string(i) + " units: " + d + "\n" + w.d.brief());
        s.hit("whole_unit_prefix_loaded");
        return;
      }
    }
  }
  s.fail("incomplete-loaded", how + ": loading reported success, " + std::to_string(size) + " of " +
                                  std::to_string(w.bytes.size()) + " bytes were there\n" + w.d.brief());
}
void healthyLoad(Sim &s, World &w, const std::string &after) {
  env::disk.files[w.path] = w.bytes;
  env::diskBegin({});
  Loaded l;
  Call c = load(w.d, w.path, l);
  env::diskEnd();
  s.check(c.res == Res::OK, "later-load-fails",
          after + ", a load of the healthy file ended with " + name(c.res) + " " + c.what + "\n" + w.d.brief());
  std::string got = dumpLoaded(w.d.kind, l);
  s.check(got == w.dump, "later-load-differs", after + ", a load of the healthy file gave other content" +
                                                   firstLineDiff(w.dump, got) + "\n" + w.d.brief());
}
void healthySave(Sim &s, World &w, const std::string &after) {
  env::diskBegin({});
  Call c = save(w.d, w.path);
  env::diskEnd();
  s.check(c.res == Res::OK, "later-save-fails",
          after + ", a save to a healthy disk ended with " + name(c.res) + " " + c.what + "\n" + w.d.brief());
  s.check(env::disk.files[w.path] == w.bytes, "later-save-differs",
          after + ", a save to a healthy disk stored other bytes: " + firstDiff(w.bytes, env::disk.files[w.path]) +
              "\n" + w.d.brief());
}
GenDoc plain(Sim &) {
  GenDoc g;
  g.far = true;
  g.bulk = true;
  return g;
}
} // namespace

// ---------------------------------------------------------------- F01
void scenF01(Sim &s) {
  World w = makeWorld(s, drawKind(s, false), plain(s));
  s.check(w.ok || w.why.find("save") == std::string::npos, "healthy-save-fails", w.why + "\n" + w.d.brief());
  for (uint32_t i = 0, n = s.c().range(1, 5); i < n; i++) {
    preexisting(s, w);
    DiskPlan p;
    if (s.faulty) {
      p = writeFaults(s, w.bytes.size());
    }
    env::diskBegin(p);
    Call c = save(w.d, w.path);
    const auto &d = env::disk;
    bool hard = d.hardFault();
    std::string how = std::string(name(w.d.kind)) + " save, " + planText(p);
    s.log(how + ": " + name(c.res));
    std::string stored = d.files.count(w.path) ? d.files.at(w.path) : std::string();
    bool closeFailed = d.firedClose > 0;
    env::diskEnd();
    s.cover(sim::fnv(how + name(c.res) + std::to_string(w.bytes.size())));
    s.check(c.res != Res::THREW, "save-threw", how + ": saving threw " + c.what + "\n" + w.d.brief());
    if (c.res == Res::OK) {
      s.check(stored == w.bytes, "incomplete-save-reported-as-success",
              how + ": success was reported, the file differs: " + firstDiff(w.bytes, stored) + "\n" + w.d.brief());
      s.check(!closeFailed, "close-error-not-reported", how + ": success was reported\n" + w.d.brief());
      s.hit("save_succeeded");
    } else {
      s.check(hard, "fault-free-save-fails", how + ": saving failed although nothing went wrong\n" + w.d.brief());
      s.hit("save_failure_reported");
    }
  }
  healthySave(s, w, "after those attempts");
}

// ---------------------------------------------------------------- F02
void scenF02(Sim &s) {
  World w = makeWorld(s, drawKind(s, true), plain(s));
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  auto &f = s.f();
  for (uint32_t i = 0, n = s.c().range(1, 6); i < n; i++) {
    DiskPlan p = s.faulty ? benign(s) : DiskPlan();
    size_t size = w.bytes.size();
    std::string what = "complete file";
    bool missing = false;
    if (s.faulty) {
      switch (f.draw(8)) {
      case 0:
        break;
      case 1:
        missing = true;
        what = "missing file";
        s.hit("fault:missing_file");
        break;
      case 2:
        size = 0;
        what = "empty file";
        s.hit("fault:empty_file");
        break;
      case 3:
        p = readFaults(s, w.bytes.size());
        break;
      case 4:
        p.failReadAt = (int64_t)f.draw((uint32_t)size + 1);
        break;
      case 5:
        if (w.d.kind == STREAM) { // cut at the end of a unit or just beside it
          StreamFile u = unitsOf(s, w);
          size_t at = u.at[f.draw((uint32_t)u.at.size())];
          size = (size_t)std::min<int64_t>((int64_t)size, std::max<int64_t>(0, (int64_t)at + (int64_t)f.draw(3) - 1));
        } else {
          size = size - std::min<size_t>(size, 1 + f.draw(4));
        }
        what = "file cut to " + std::to_string(size) + " of " + std::to_string(w.bytes.size()) + " bytes";
        s.hit("fault:truncated_file");
        break;
      default:
        size = f.draw((uint32_t)size);
        what = "file cut to " + std::to_string(size) + " of " + std::to_string(w.bytes.size()) + " bytes";
        s.hit("fault:truncated_file");
        break;
      }
    }
    if (missing) {
      env::disk.files.erase(w.path);
    } else {
      env::disk.files[w.path] = w.bytes.substr(0, size);
    }
    env::diskBegin(p);
    Loaded l;
    Call c = load(w.d, w.path, l);
    bool hard = env::disk.hardFault();
    std::string how = std::string(name(w.d.kind)) + " load of a " + what + ", " + planText(p);
    s.log(how + ": " + name(c.res));
    env::diskEnd();
    s.cover(sim::fnv(how + name(c.res) + std::to_string(w.bytes.size())));
    if (missing) {
      s.check(c.res != Res::THREW, "load-threw", how + ": loading threw " + c.what);
      s.check(c.res == Res::FAIL, "missing-loaded", how + ": loading reported success");
      s.hit("failure_reported");
    } else if (hard && c.res != Res::OK) {
      s.check(c.res != Res::THREW, "load-threw", how + ": loading threw " + c.what + "\n" + w.d.brief());
      s.hit("failure_reported");
    } else {
      expectFailOrPrefix(s, w, c, l, size, how);
    }
  }
  healthyLoad(s, w, "after those loads");
}

// ---------------------------------------------------------------- F03
void scenF03(Sim &s) {
  World w = makeWorld(s, drawKind(s, false), plain(s));
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  auto &f = s.f();
  for (uint32_t i = 0, n = s.c().range(1, 4); i < n; i++) {
    env::disk.files.erase(w.path);
    DiskPlan p = s.faulty ? benign(s) : DiskPlan();
    size_t lost = 0;
    if (s.faulty) {
      size_t z = w.bytes.size(), at;
      if (w.d.kind == STREAM && f.chance(40)) {
        StreamFile u = unitsOf(s, w);
        at = u.at[f.draw((uint32_t)u.at.size())];
      } else {
        at = f.draw((uint32_t)z + 1);
      }
      p.crashAt = (int64_t)at;
      lost = f.chance(40) ? f.draw((uint32_t)at + 1) : 0;
    }
    env::diskBegin(p);
    (void)save(w.d, w.path); // nobody learns the outcome
    bool crashed = env::disk.crashed;
    env::diskEnd();
    std::string &left = env::disk.files[w.path];
    s.check(crashed || left == w.bytes, "fault-free-save-differs", "a save without crash stored other bytes: " + firstDiff(w.bytes, left) + "\n" + w.d.brief());
    if (lost > 0 && lost <= left.size()) {
      left.resize(left.size() - lost);
      s.hit("fault:suffix_lost");
    }
    std::string how = std::string(name(w.d.kind)) + " save, " + planText(p) + ", " + std::to_string(left.size()) +
                      " of " + std::to_string(w.bytes.size()) + " bytes left";
    s.cover(sim::fnv(how));
    // what a crash leaves must be a prefix of the file; then loading is judged like a cut file
    if (w.bytes.compare(0, left.size(), left) != 0 || left.size() > w.bytes.size()) {
      s.hit("leftover_not_a_prefix");
    }
    size_t size = left.size();
    bool prefix = size <= w.bytes.size() && w.bytes.compare(0, size, left) == 0;
    env::diskBegin(s.faulty ? benign(s) : DiskPlan());
    Loaded l;
    Call c = load(w.d, w.path, l);
    env::diskEnd();
    s.log(how + ": load " + name(c.res));
    if (prefix) {
      expectFailOrPrefix(s, w, c, l, size, how);
    } else {
      s.check(c.res != Res::THREW, "load-threw", how + ": loading threw " + c.what + "\n" + w.d.brief());
      if (c.res == Res::OK) {
        std::string got = dumpLoaded(w.d.kind, l);
        s.check(got == w.dump, "incomplete-loaded", how + ": loading reported success with other content" + firstLineDiff(w.dump, got) + "\n" + w.d.brief());
      }
    }
    if (s.c().chance(50)) {
      healthySave(s, w, how + ", restart");
      healthyLoad(s, w, how + ", restart and save");
    }
  }
}

// ---------------------------------------------------------------- F04
namespace {
// The one stored element known to be lost: the effects of a composite effect in JSON.
void jsonComposite(Sim &s) {
  using namespace haptics::types;
  GenDoc g;
  g.composites = false;
  g.bulk = false;
  Doc d = genDoc(s, JSON, g);
  if (d.h.getPerceptionsSize() == 0 || d.h.getProfile() != "Main") {
    s.hit("skipped");
    return;
  }
  Effect inner(0, 0, BaseSignal::Sine, EffectType::Basis), comp(0, 0, BaseSignal::Sine, EffectType::Composite);
  inner.addKeyframe(0, 0.5, 60);
  comp.setId(30000);
  comp.addTimelineEffect(inner);
  d.h.getPerceptionAt(0).addBasisEffect(comp);
  std::string path = std::string(env::ROOT) + "composite.hjif";
  env::diskReset(s);
  Loaded l;
  Call c = save(d, path);
  if (c.res == Res::OK) {
    c = load(d, path, l);
  }
  if (c.res != Res::OK) { // refused rather than lost
    s.hit("skipped");
    return;
  }
  auto got = l.h.getPerceptionAt(0).getEffectById(30000);
  s.check(got.has_value() && got->getTimelineSize() == 1, "json-composite-timeline-lost",
          "a composite library effect with one effect in its timeline comes back from JSON with an empty timeline");
  s.hit("composite_kept");
}
} // namespace
void scenF04(Sim &s) {
  if (s.c().draw(400) == 399) {
    jsonComposite(s);
    return;
  }
  World w = makeWorld(s, drawKind(s, false), plain(s));
  s.check(w.ok, "healthy-round-trip-fails", w.why + "\n" + w.d.brief());
  for (uint32_t i = 0, n = s.c().range(1, 3); i < n; i++) {
    preexisting(s, w);
    DiskPlan p = s.faulty ? benign(s) : DiskPlan();
    env::diskBegin(p);
    Call c = save(w.d, w.path);
    env::diskEnd();
    s.check(c.res == Res::OK, "save-fails", std::string("saving ended with ") + name(c.res) + " " + c.what + ", " + planText(p) + "\n" + w.d.brief());
    s.check(env::disk.files[w.path] == w.bytes, "bytes-depend-on-granularity",
            planText(p) + ": other bytes were stored: " + firstDiff(w.bytes, env::disk.files[w.path]) + "\n" + w.d.brief());
    p = s.faulty ? benign(s) : DiskPlan();
    env::diskBegin(p);
    Loaded l;
    bool memory = w.d.kind == BINARY && s.c().chance(30);
    if (memory) {
      std::string copy = w.bytes;
      haptics::io::IOMemoryBuffer buf(&copy[0], copy.size());
      c = Call();
      try {
        c.res = haptics::io::IOBinary::loadMemory(buf, l.h) ? Res::OK : Res::FAIL;
      } catch (const std::exception &e) {
        c.res = Res::THREW;
        c.what = e.what();
      }
      s.hit("loaded_from_memory");
    } else {
      c = load(w.d, w.path, l);
    }
    env::diskEnd();
    std::string how = std::string(memory ? "memory load" : "load") + ", " + planText(p);
    s.check(c.res == Res::OK, "load-fails", how + " ended with " + name(c.res) + " " + c.what + "\n" + w.d.brief());
    std::string got = dumpLoaded(w.d.kind, l);
    s.check(got == w.dump, "content-depends-on-granularity", how + ": other content" + firstLineDiff(w.dump, got) + "\n" + w.d.brief());
    std::string d = compare(w.d, l);
    s.check(d.empty(), "round-trip", how + ": " + d + "\n" + w.d.brief());
    s.logHash("round trip", got);
    s.cover(sim::fnv(w.bytes + std::to_string(p.frag) + std::to_string(p.eintr)));
    s.hit("round_trips");
  }
}

// ---------------------------------------------------------------- F05
void scenF05(Sim &s) {
  World w = makeWorld(s, s.c().draw(5) == 0 ? OHM : s.c().draw(2) == 0 ? STREAM : BINARY, plain(s));
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  for (uint32_t i = 0, n = s.c().range(1, 5); i < n && s.faulty; i++) {
    std::string how;
    if (w.d.kind == STREAM && s.f().chance(25)) {
      std::string unit = link::packBits(link::composed(s, link::unitsOf(s, w.bytes)));
      env::disk.files[w.path] = s.f().chance(30) ? unit : w.bytes + unit;
      how = " with a composed unit of " + std::to_string(unit.size()) + " bytes";
    } else {
      env::disk.files[w.path] = mutate(s, w.bytes, how);
    }
    env::diskBegin(benign(s));
    Loaded l;
    Call c = load(w.d, w.path, l);
    env::diskEnd();
    how = std::string(name(w.d.kind)) + " file," + how;
    s.log(how + ": " + name(c.res));
    s.cover(sim::fnv(env::disk.files[w.path]));
    s.check(c.res != Res::THREW, "load-threw", how + ": loading threw " + c.what + "\n" + w.d.brief());
    s.hit(c.res == Res::OK ? "damage_accepted" : "damage_rejected");
    s.logHash("loaded", dumpLoaded(w.d.kind, l));
  }
  healthyLoad(s, w, "after the damaged files");
}

// ---------------------------------------------------------------- F06
void scenF06(Sim &s) {
  World w = makeWorld(s, drawKind(s, true), plain(s));
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  auto &f = s.f();
  for (uint32_t i = 0, n = s.c().range(2, 8); i < n; i++) {
    bool saving = w.d.savable() && s.c().chance(50);
    DiskPlan p;
    uint64_t failAlloc = 0;
    std::string extra;
    if (s.faulty) {
      p = saving ? writeFaults(s, w.bytes.size()) : readFaults(s, w.bytes.size());
      if (f.chance(30)) {
        failAlloc = f.chance(50) ? f.range(1, 60) : f.range(1, 5000);
        extra = ", allocation #" + std::to_string(failAlloc) + " fails";
      }
    }
    if (saving) {
      preexisting(s, w);
    } else {
      env::disk.files[w.path] = w.bytes;
      if (s.faulty && f.chance(40)) {
        env::disk.files[w.path] = f.chance(50) || w.d.kind == JSON || w.d.kind >= AHAP ? w.bytes.substr(0, f.draw((uint32_t)w.bytes.size())) : mutate(s, w.bytes, extra);
      } else if (s.faulty && f.chance(10)) {
        env::disk.files.erase(w.path);
        s.hit("fault:missing_file");
      }
    }
    env::diskBegin(p);
    Call c;
    {
      Loaded l;
      c = saving ? save(w.d, w.path, failAlloc) : load(w.d, w.path, l, failAlloc);
    }
    if (c.allocFailed) {
      s.hit("fault:allocation_failed");
    }
    std::string how = std::string(name(w.d.kind)) + (saving ? " save, " : " load, ") + planText(p) + extra;
    s.log(how + ": " + name(c.res) + ", " + std::to_string(env::disk.opened) + " opened");
    s.cover(sim::fnv(how));
    noHandles(s, w, how + " ended with " + name(c.res));
    env::diskEnd();
    s.hit(std::string("ended_with_") + (c.res == Res::OK ? "success" : c.res == Res::FAIL ? "failure" : "exception"));
  }
  if (w.d.savable()) {
    healthySave(s, w, "after those attempts");
  }
  healthyLoad(s, w, "after those attempts");
}

// ---------------------------------------------------------------- F07, F08
namespace {
// One save and load of what a program holds, after attempts the disk spoiled.
void cycle(Sim &s, Doc &d, Loaded &out, uint32_t n) {
  std::string path = std::string(env::ROOT) + "generation." + name(d.kind);
  std::string where = std::string("generation ") + std::to_string(n) + ", " + name(d.kind) + ": ";
  size_t size = env::disk.files.count(path) ? env::disk.files[path].size() : 200;
  for (uint32_t k = s.faulty ? s.f().draw(3) : 0; k > 0; k--) {
    DiskPlan p = writeFaults(s, size + 1);
    env::diskBegin(p);
    Call c = save(d, path);
    env::diskEnd();
    s.log(where + "save, " + planText(p) + ": " + name(c.res));
    s.hit(c.res == Res::OK ? "save_despite_faults" : "save_spoiled");
  }
  env::diskBegin(s.faulty ? benign(s) : DiskPlan());
  Call c = save(d, path);
  env::diskEnd();
  s.check(c.res == Res::OK, "save-fails", where + "saving ended with " + name(c.res) + " " + c.what + "\n" + d.brief());
  for (uint32_t k = s.faulty ? s.f().draw(2) : 0; k > 0; k--) {
    DiskPlan p = readFaults(s, env::disk.files[path].size());
    env::diskBegin(p);
    Loaded lost;
    c = load(d, path, lost);
    env::diskEnd();
    s.log(where + "load, " + planText(p) + ": " + name(c.res));
    s.hit(c.res == Res::OK ? "load_despite_faults" : "load_spoiled");
  }
  env::diskBegin(s.faulty ? benign(s) : DiskPlan());
  c = load(d, path, out);
  env::diskEnd();
  s.check(c.res == Res::OK, "load-fails", where + "loading ended with " + name(c.res) + " " + c.what + "\n" + d.brief());
  s.logHash(where, env::disk.files[path]);
  s.cover(sim::fnv(env::disk.files[path]));
  s.simTime += env::disk.files[path].size();
}
model::Fmt format(Kind k) {
  return k == STREAM ? model::Fmt::Stream : k == BINARY ? model::Fmt::Binary : model::Fmt::Json;
}
} // namespace

void scenF07(Sim &s) {
  env::diskReset(s);
  Doc d = genDoc(s, drawKind(s, false), plain(s));
  s.hit(std::string("kind:") + name(d.kind));
  Loaded first;
  cycle(s, d, first, 1);
  const bool exact = d.kind == JSON || d.kind == OHM; // nothing is quantised
  std::string dump = exact ? dumpLoaded(d.kind, first) : std::string();
  model::CExp want;
  if (!exact) {
    want = model::canon(first.h, format(d.kind));
  }
  Doc held;
  held.kind = d.kind;
  held.pd = d.pd;
  held.h = first.h;
  held.ohm = first.ohm;
  held.src = want;
  for (uint32_t n = 2, last = s.c().range(2, 4); n <= last; n++) {
    Loaded l;
    cycle(s, held, l, n);
    std::string diff;
    if (exact) {
      std::string got = dumpLoaded(d.kind, l);
      diff = got == dump ? "" : firstLineDiff(dump, got);
    } else {
      diff = model::diffOrdered(want, model::canon(l.h, format(d.kind)));
    }
    s.check(diff.empty(), "content-drifts", std::string(name(d.kind)) + ", generation " + std::to_string(n) + ": " + diff + "\n" + d.brief());
    held.h = l.h;
    held.ohm = l.ohm;
    s.hit("generations");
  }
}

void scenF08(Sim &s) {
  env::diskReset(s);
  GenDoc g;
  g.portable = true;
  Doc d = genDoc(s, JSON, g);
  std::string chain;
  const char *from = "";
  for (uint32_t n = 1, last = s.c().range(2, 4); n <= last; n++) {
    d.kind = (Kind)s.c().draw(3);
    d.src = model::canon(d.h, format(d.kind));
    if (d.kind == STREAM) {
      d.src = model::pruned(d.src);
    }
    chain += std::string(n > 1 ? " > " : "") + name(d.kind);
    Loaded l;
    cycle(s, d, l, n);
    std::string diff = compare(d, l);
    s.check(diff.empty(), "conversion", chain + ": " + diff + "\n" + d.brief());
    d.h = l.h;
    s.hit(std::string("step:") + (from[0] ? from : "new") + ">" + name(d.kind));
    from = name(d.kind);
  }
}

// ---------------------------------------------------------------- F10
void scenF10(Sim &s) {
  struct File {
    Doc d;
    std::string path, bytes;
  };
  std::vector<File> docs;
  for (uint32_t i = 0, n = s.c().range(2, 4); i < n; i++) {
    GenDoc g;
    g.bulk = false;
    World w = makeWorld(s, drawKind(s, true), g);
    if (w.ok) {
      docs.push_back({w.d, std::string(env::ROOT) + "doc" + (s.c().chance(30) ? "" : std::to_string(i)) + "." + name(w.d.kind), w.bytes});
    }
  }
  if (docs.empty()) {
    s.hit("skipped");
    return;
  }
  env::diskReset(s);
  auto &f = s.f();
  auto install = [&] {
    env::disk.files.clear();
    for (auto &x : docs) {
      env::disk.files[x.path] = x.bytes;
    }
    store::bystanders(s, docs[0].path);
  };
  install();
  for (uint32_t i = 0, n = s.c().range(3, 8); i < n; i++) {
    File &x = docs[s.c().draw((uint32_t)docs.size())];
    bool saving = x.d.savable() && s.c().chance(50);
    const bool exists = env::disk.files.count(x.path) != 0;
    const std::string now = exists ? env::disk.files[x.path] : "";
    DiskPlan p;
    uint64_t failAlloc = 0;
    std::string extra;
    if (s.faulty) {
      p = saving ? writeFaults(s, x.bytes.size()) : readFaults(s, x.bytes.size());
      if (f.chance(20)) {
        failAlloc = f.chance(50) ? f.range(1, 60) : f.range(1, 3000);
        extra = ", allocation #" + std::to_string(failAlloc) + " fails";
      }
      if (!saving && f.chance(30) && exists) {
        env::disk.files[x.path] = f.chance(50) || x.d.kind == JSON || x.d.kind >= AHAP ? now.substr(0, now.empty() ? 0 : f.draw((uint32_t)now.size())) : mutate(s, now.empty() ? x.bytes : now, extra);
        extra += ", damaged file";
      } else if (!saving && f.chance(10)) {
        env::disk.files.erase(x.path);
        extra += ", file missing";
      }
    }
    const auto before = env::disk.files;
    env::diskBegin(p);
    Call c;
    {
      Loaded l;
      c = saving ? save(x.d, x.path, failAlloc) : load(x.d, x.path, l, failAlloc);
    }
    env::diskEnd();
    const std::string how = std::string(name(x.d.kind)) + (saving ? " save to " : " load from ") + x.path + ", " + planText(p) + extra + " (" + name(c.res) + ")";
    s.log(how);
    s.cover(sim::fnv(how));
    std::string other = store::foreignChange(before, saving ? std::set<std::string>{x.path} : std::set<std::string>{});
    s.check(other.empty(), "other-file-changed", how + ": " + other + "\n" + x.d.brief());
    s.hit(saving ? "saves" : "loads");
    if (s.c().chance(40)) {
      install();
    }
  }
}
