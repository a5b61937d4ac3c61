// E01 - E04: failing allocations, thread schedules, environment, and the encoder's source.
#include "store.h"
#include <clocale>
#include <cstdlib>
#include <ctime>
#include <locale>

using namespace store;
using env::DiskPlan;
using sim::Sim;

namespace {
std::string lineDiff(const std::string &a, const std::string &b) {
  size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    if (a[i] == '\n') {
      line = i + 1;
    }
    i++;
  }
  auto cut = [&](const std::string &x) {
    return line > x.size() ? std::string() : x.substr(line, std::min<size_t>(300, x.find('\n', i) - line));
  };
  return "\n  expected " + cut(a) + "\n  got      " + cut(b);
}
std::string byteDiff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    i++;
  }
  return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ", first difference at byte " +
         std::to_string(i);
}
GenDoc plainDate() {
  GenDoc g;
  g.validDate = true; // an unset date is replaced by the current one in JSON
  g.composites = true;
  return g;
}
} // namespace

// ---------------------------------------------------------------- E01
void scenE01(Sim &s) {
  World w = makeWorld(s, drawKind(s, true), plainDate());
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  std::string before = w.d.dump();
  auto once = [&](bool saving, uint64_t failAt, Call &c) {
    // the disk starts from the same state in each attempt
    if (saving) {
      env::disk.files[w.path] = w.bytes;
    }
    env::diskBegin({});
    {
      Loaded l;
      c = saving ? save(w.d, w.path, failAt) : load(w.d, w.path, l, failAt);
      if (!saving && c.res == Res::OK) {
        std::string got = dumpLoaded(w.d.kind, l);
        s.check(got == w.dump, "wrong-content-after-failed-allocation",
                "loading reported success after allocation #" + std::to_string(failAt) + " failed, with other content" +
                    lineDiff(w.dump, got) + "\n" + w.d.brief());
      }
    }
    s.check(env::disk.openNow == 0, "handle-leak", "a file is still open after allocation #" + std::to_string(failAt) + " failed\n" + w.d.brief());
    env::diskEnd();
    if (saving && c.res == Res::OK) {
      s.check(env::disk.files[w.path] == w.bytes, "wrong-file-after-failed-allocation",
              "saving reported success after allocation #" + std::to_string(failAt) + " failed, with other bytes: " +
                  byteDiff(w.bytes, env::disk.files[w.path]) + "\n" + w.d.brief());
    }
    if (c.what.size() > 15) {
      c.what.assign(1, c.what[0]); // keep no heap memory
      c.what.shrink_to_fit();
    }
  };
  for (uint32_t i = 0, n = s.c().range(2, 8); i < n; i++) {
    bool saving = w.d.savable() && s.c().chance(50);
    std::string op = std::string(saving ? "save " : "load ") + name(w.d.kind);
    Call c;
    once(saving, 0, c);
    s.check(c.res == Res::OK, "healthy-attempt-fails", op + " without fault ended with " + name(c.res) + "\n" + w.d.brief());
    uint64_t total = c.allocs;
    if (!s.faulty || total == 0) {
      continue;
    }
    uint64_t at = 1 + s.f().draw((uint32_t)total);
    once(saving, at, c);
    if (c.allocFailed) {
      s.hit("fault:allocation_failed");
    }
    s.cover(sim::fnv(op + std::to_string(at) + "/" + std::to_string(total)));
    s.log(op + ", allocation #" + std::to_string(at) + " of " + std::to_string(total) + " fails: " + name(c.res));
    s.hit(std::string("ended_with_") + (c.res == Res::OK ? "success" : c.res == Res::FAIL ? "failure" : "exception"));
    std::string now = w.d.dump();
    s.check(now == before, "source-changed", op + " with failing allocation #" + std::to_string(at) + " changed the source" + lineDiff(before, now));
    // the same attempt again must not keep memory
    Call c2;
    uint64_t live = env::heap.live;
    once(saving, at, c2);
    uint64_t live2 = env::heap.live;
    s.check(live2 <= live || c2.res != c.res, "memory-leak",
            op + " with failing allocation #" + std::to_string(at) + " keeps " + std::to_string(live2 - live) + " bytes each time\n" + w.d.brief());
    once(saving, 0, c);
    s.check(c.res == Res::OK, "repetition-fails",
            op + " after a failed allocation ended with " + name(c.res) + "\n" + w.d.brief());
  }
}

// ---------------------------------------------------------------- E02
void scenE02(Sim &s) {
  uint32_t n = s.c().range(2, 4);
  struct Job {
    World w;
    bool saving = true;
    int rounds = 1;
    bool saved = false, loaded = false;
    std::string stored, dump;
  };
  std::vector<Job> jobs(n);
  bool sameKind = s.c().chance(50);
  Kind k0 = drawKind(s, true);
  std::vector<std::pair<std::string, std::string>> files;
  for (uint32_t i = 0; i < n; i++) {
    jobs[i].w = makeWorld(s, sameKind ? k0 : drawKind(s, true), plainDate());
    if (!jobs[i].w.ok) {
      s.hit("skipped");
      return;
    }
    jobs[i].w.path = std::string(env::ROOT) + "doc" + std::to_string(i) + "." + name(jobs[i].w.d.kind);
    jobs[i].saving = jobs[i].w.d.savable() && s.c().chance(70);
    jobs[i].rounds = (int)s.c().range(1, 2);
  }
  env::diskReset(s);
  for (auto &j : jobs) {
    if (!j.saving) {
      env::disk.files[j.w.path] = j.w.bytes;
    } else {
      env::disk.files[j.w.path] = "";
    }
  }
  DiskPlan p;
  p.frag = s.faulty && s.f().chance(40);
  env::diskBegin(p);
  std::vector<std::function<void()>> tasks;
  for (auto &j : jobs) {
    tasks.push_back([&j] {
      for (int r = 0; r < j.rounds; r++) {
        if (j.saving) {
          j.saved = rawSave(j.w.d, j.w.path);
        }
        Loaded l;
        j.loaded = rawLoad(j.w.d, j.w.path, l);
        j.dump = dumpLoaded(j.w.d.kind, l);
      }
    });
  }
  sim::budget();
  uint64_t sw = env::switches;
  env::runThreads(s, tasks, s.faulty ? s.s().pick<uint32_t>({20000, 1000, 100000, 5000}) : 2000000000u);
  sw = env::switches - sw;
  s.hit("thread_switches", sw);
  if (s.faulty) {
    s.hit("fault:preemptions", sw);
  }
  for (auto &j : jobs) {
    j.stored = env::disk.files[j.w.path];
  }
  env::diskEnd();
  s.log(std::to_string(n) + " threads, " + std::to_string(sw) + " switches");
  s.cover(s.hash);
  for (size_t i = 0; i < jobs.size(); i++) {
    auto &j = jobs[i];
    std::string who = "thread " + std::to_string(i) + " of " + std::to_string(n) + " (" + name(j.w.d.kind) + ")";
    if (j.saving) {
      s.check(j.saved, "concurrent-save-fails", who + ": saving failed, alone it works\n" + j.w.d.brief());
      s.check(j.stored == j.w.bytes, "concurrent-save-differs", who + " stored other bytes than alone: " + byteDiff(j.w.bytes, j.stored) + "\n" + j.w.d.brief());
    }
    s.check(j.loaded, "concurrent-load-fails", who + ": loading failed, alone it works\n" + j.w.d.brief());
    s.check(j.dump == j.w.dump, "concurrent-load-differs", who + " loaded other content than alone" + lineDiff(j.w.dump, j.dump) + "\n" + j.w.d.brief());
  }
}

// ---------------------------------------------------------------- E03
namespace {
struct Comma : std::numpunct<char> {
  std::string g;
  explicit Comma(const std::string &gr) : g(gr) {}
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return g; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
// deep enough that the operation's own frames lie inside the painted part
std::string surroundings(Sim &s) {
  auto &f = s.f();
  std::string how;
  if (f.chance(70)) {
    int fill = (int)f.pick<uint32_t>({0, 255, 0xaa, 1, f.draw(256)});
    env::heap.fill = fill;
    env::paintStack((unsigned char)fill);
    how += " fresh memory filled with " + std::to_string(fill);
    s.hit("fault:memory_pattern");
  }
  if (f.chance(60)) {
    env::clock.now = (int64_t)f.pick<uint32_t>({0, 1, 951782400, 1709251199, 2147483647, f.draw(2000000000)}) + (f.chance(20) ? 4000000000LL : 0);
    env::clock.step = f.pick<int64_t>({0, 1, 1000000007, 86400LL * 1000000000, -3600LL * 1000000000});
    how += " clock at " + std::to_string(env::clock.now) + " stepping " + std::to_string(env::clock.step) + " ns";
    s.hit("fault:clock_jump");
  }
  if (f.chance(50)) {
    const char *tz = f.pick({"XXX-14", "YYY12", "EST5EDT,M3.2.0,M11.1.0", "UTC", "NPT-5:45", ""});
    setenv("TZ", tz, 1);
    tzset();
    how += std::string(" time zone '") + tz + "'";
    s.hit("fault:time_zone");
  }
  if (f.chance(50)) {
    std::locale::global(std::locale(std::locale::classic(), new Comma(f.chance(50) ? "\3" : "\1")));
    how += " C++ locale with decimal comma";
    s.hit("fault:locale");
  }
  if (f.chance(40)) {
    // the comma locale is built by check.py (localedef) and found through LOCPATH
    const char *l = f.pick({"C.utf8", "de_DE.utf8", "de_DE.utf8"});
    if (setlocale(LC_ALL, l) != nullptr) {
      how += std::string(" C locale ") + l;
      s.hit(std::string("fault:c_locale_") + l);
    }
  }
  env::clock.rnd = f.draw(1000000) + 1;
  return how;
}
} // namespace

void scenE03(Sim &s) {
  World w = makeWorld(s, drawKind(s, true), plainDate());
  if (!w.ok) {
    s.hit("skipped");
    return;
  }
  for (uint32_t i = 0, n = s.c().range(1, 3); i < n; i++) {
    std::string how = s.faulty ? surroundings(s) : std::string();
    // what the process did before
    for (uint32_t h = 0, m = s.c().draw(3); h < m; h++) {
      World other = makeWorld(s, drawKind(s, true), plainDate());
      how += std::string(" after a ") + name(other.d.kind) + " document";
      s.hit("history_operations");
    }
    env::diskReset(s);
    env::diskBegin({});
    Call c;
    if (w.d.savable()) {
      c = save(w.d, w.path);
      s.check(c.res == Res::OK, "save-depends-on-surroundings", std::string("saving ended with ") + name(c.res) + " " + c.what + " with" + how + "\n" + w.d.brief());
      s.check(env::disk.files[w.path] == w.bytes, "bytes-depend-on-surroundings",
              "other bytes were stored with" + how + ": " + byteDiff(w.bytes, env::disk.files[w.path]) +
                  lineDiff(w.d.kind == JSON ? w.bytes : "", w.d.kind == JSON ? env::disk.files[w.path] : "") + "\n" + w.d.brief());
    } else {
      env::disk.files[w.path] = w.bytes;
    }
    if (s.faulty && env::heap.fill >= 0) {
      env::paintStack((unsigned char)(255 - env::heap.fill));
    }
    Loaded l;
    c = load(w.d, w.path, l);
    s.check(c.res == Res::OK, "load-depends-on-surroundings", std::string("loading ended with ") + name(c.res) + " " + c.what + " with" + how + "\n" + w.d.brief());
    std::string got = dumpLoaded(w.d.kind, l);
    s.check(got == w.dump, "content-depends-on-surroundings", "other content was loaded with" + how + lineDiff(w.dump, got) + "\n" + w.d.brief());
    env::diskEnd();
    s.log(std::string(name(w.d.kind)) + " with" + how);
    s.cover(sim::fnv(w.bytes + how));
    env::heap.fill = -1;
    std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
    setenv("TZ", "UTC", 1);
    tzset();
  }
}

// ---------------------------------------------------------------- E04
void scenE04(Sim &s) {
  GenDoc g;
  g.validDate = true;
  g.composites = false;
  g.wavelet = s.c().chance(30);
  Kind own = s.c().pick({STREAM, BINARY, JSON});
  Doc d = genDoc(s, own, g);
  if (g.wavelet) {
    s.hit("with_wavelets");
  }
  std::string before = d.dump(), path = std::string(env::ROOT) + "out";
  env::diskReset(s);
  std::string ref[3];
  Res first[3] = {Res::OK, Res::OK, Res::OK};
  bool known[3] = {false, false, false};
  auto usable = [&](Kind k) { return !g.wavelet || k == own || k == JSON; };
  for (uint32_t i = 0, n = s.c().range(3, 10); i < n; i++) {
    Kind k = s.c().chance(40) ? own : s.c().pick({STREAM, BINARY, JSON});
    if (!usable(k)) {
      k = own;
    }
    d.kind = k;
    bool fault = known[k] && s.faulty && s.f().chance(50);
    DiskPlan p;
    uint64_t failAlloc = 0;
    std::string how = std::string(name(k)) + " save";
    if (fault) {
      if (s.f().chance(50)) {
        p = writeFaults(s, std::max<size_t>(1, ref[k].size()));
        how += ", " + planText(p);
      } else {
        failAlloc = s.f().chance(30) ? s.f().range(1, 50) : s.f().range(1, 20000);
        how += ", allocation #" + std::to_string(failAlloc) + " fails";
      }
    }
    env::disk.files.erase(path);
    env::diskBegin(p);
    Call c = save(d, path, failAlloc);
    bool clean = !env::disk.hardFault() && !c.allocFailed;
    if (c.allocFailed) {
      s.hit("fault:allocation_failed");
    }
    env::diskEnd();
    s.log(how + ": " + name(c.res));
    s.cover(sim::fnv(before + how));
    std::string now = d.dump();
    s.check(now == before, "source-changed", how + " (" + name(c.res) + ") changed the experience" + lineDiff(before, now));
    if (!clean) {
      continue;
    }
    std::string bytes = env::disk.files[path];
    if (!known[k]) {
      known[k] = true;
      first[k] = c.res;
      ref[k] = bytes;
      continue;
    }
    s.check(c.res == first[k], "outcome-changed", how + " ended with " + name(c.res) + ", the first time with " + name(first[k]) + "\n" + d.brief());
    if (c.res == Res::OK) {
      s.check(bytes == ref[k], "bytes-changed", how + " stored other bytes than the first time: " + byteDiff(ref[k], bytes) + "\n" + d.brief());
      s.hit("same_bytes_again");
    }
  }
}
