// Supervisor: runs seeded simulations in a child process, classifies deaths, replays, minimises.
#include "core.h"
#include "env.h"
#include <algorithm>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4096";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

namespace {
using sim::Mirror;
using sim::Sim;

double realNow() {
  struct timespec ts;
  ts.tv_sec = 0;
  bool a = env::clock.active;
  env::clock.active = false;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  env::clock.active = a;
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

struct Outcome {
  bool ok = true;
  std::string cls, msg;
};

struct Replay {
  std::string prop;
  bool faulty = true;
  bool thorough = false;
  std::string cls, msg;
  uint64_t hash = 0;
  std::vector<uint32_t> ch[3];
};
const char *NAMES[3] = {"content", "sched", "fault"};

bool load(const std::string &path, Replay &r) {
  std::ifstream in(path);
  if (!in) {
    return false;
  }
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "property") {
      l >> r.prop;
    } else if (k == "faulty") {
      l >> r.faulty;
    } else if (k == "thorough") {
      l >> r.thorough;
    } else if (k == "class") {
      std::getline(l, r.cls);
      r.cls.erase(0, 1);
    } else if (k == "hash") {
      l >> std::hex >> r.hash >> std::dec;
    } else {
      for (int i = 0; i < 3; i++) {
        if (k == NAMES[i]) {
          uint32_t v;
          while (l >> v) {
            r.ch[i].push_back(v);
          }
        }
      }
    }
  }
  return !r.prop.empty();
}
void save(const std::string &path, const Replay &r) {
  std::ofstream o(path);
  o << "property " << r.prop << "\nfaulty " << r.faulty << "\nthorough " << r.thorough << "\nclass "
    << r.cls << "\nhash " << std::hex << r.hash << std::dec << "\n";
  for (int i = 0; i < 3; i++) {
    o << NAMES[i];
    for (auto v : r.ch[i]) {
      o << " " << v;
    }
    o << "\n";
  }
  std::istringstream m(r.msg);
  std::string l;
  while (std::getline(m, l)) {
    o << "# " << l << "\n";
  }
}

const sim::ScenarioInfo *find(const std::string &id) {
  for (const auto &s : sim::scenarios()) {
    if (id == s.id) {
      return &s;
    }
  }
  return nullptr;
}

void onTimer(int) {
  static const char m[] = "SIM-HANG\n";
  (void)!::write(2, m, sizeof m - 1);
  _exit(87);
}
void onStall(int) {
  static const char m[] = "SIM-STALL\n";
  (void)!::write(2, m, sizeof m - 1);
  _exit(88);
}
int cpuLimit = getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : 40; // seconds of processor time, per operation
void armTimer(int sec) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

} // namespace
void sim::budget() { armTimer(cpuLimit); }
namespace {

Outcome execute(const sim::ScenarioInfo &sc, Sim &s) {
  Outcome o;
  for (int i = 0; i < 3; i++) {
    s.ch[i].stream = i;
  }
  sim::mirror->hash = s.hash;
  sim::mirror->events = 0;
  memset(sim::mirror->n, 0, sizeof sim::mirror->n);
  env::heap = env::Heap{env::heap.armed, 0, 0, false, -1, env::heap.live, 0};
  env::heap.cap = env::heap.live + (1500ULL << 20);
  env::disk.files.clear();
  env::clock = env::Clock();
  env::clock.active = true;
  setlocale(LC_ALL, "C");
  std::locale::global(std::locale::classic());
  armTimer(cpuLimit);
  try {
    sc.fn(s);
  } catch (const sim::Violation &v) {
    o.ok = false;
    o.cls = v.cls;
    o.msg = v.msg;
  } catch (const std::exception &e) {
    o.ok = false;
    o.cls = "exception-escaped";
    o.msg = std::string("exception escaped to the scenario: ") + e.what();
  }
  armTimer(0);
  std::locale::global(std::locale::classic());
  env::disarm();
  env::diskEnd();
  env::clock.active = false;
  env::heap.cap = 0;
  env::heap.fill = -1;
  return o;
}

int errFd = -1;
std::string readErr() {
  std::string r;
  char b[65536];
  off_t end = lseek(errFd, 0, SEEK_END);
  off_t at = std::max<off_t>(0, end - 200000);
  while (at < end) {
    ssize_t n = pread(errFd, b, sizeof b, at);
    if (n <= 0) {
      break;
    }
    r.append(b, (size_t)n);
    at += n;
  }
  return r;
}
Outcome classify(int status) {
  Outcome o;
  o.ok = false;
  std::string e = readErr();
  auto line = [&](const std::string &k) -> std::string {
    auto p = e.find(k);
    if (p == std::string::npos) {
      return "";
    }
    auto q = e.find('\n', p);
    return e.substr(p, q - p);
  };
  auto frame = [&]() -> std::string {
    std::istringstream in(e);
    std::string l, out;
    int n = 0;
    while (std::getline(in, l) && n < 4) {
      auto p = l.find("/repo/source/");
      if (l.find("#") != std::string::npos && p != std::string::npos) {
        auto q = l.find(" in ");
        out += "\n  " + (q == std::string::npos ? l : l.substr(q + 4));
        n++;
      }
    }
    return out;
  };
  if (e.find("SIM-HANG") != std::string::npos) {
    o.cls = "hang";
    o.msg = "the execution did not finish within its CPU-time bound";
  } else if (e.find("SIM-STALL") != std::string::npos) {
    o.cls = "stall";
    o.msg = "the execution stopped making progress";
  } else if (e.find("SIM-MEMORY-CAP") != std::string::npos) {
    o.cls = "memory-blow-up";
    o.msg = "live heap memory exceeded the bound";
  } else if (e.find("AddressSanitizer") != std::string::npos &&
             e.find("ABRT") == std::string::npos) {
    std::string l = line("AddressSanitizer: ");
    std::istringstream w(l);
    std::string a, k;
    w >> a >> k;
    o.cls = "memory-error:" + k;
    o.msg = l + frame();
  } else if (e.find("runtime error: ") != std::string::npos) {
    o.cls = "undefined-behaviour";
    o.msg = line("runtime error: ") + frame();
  } else if (e.find("terminate called") != std::string::npos) {
    o.cls = "terminate";
    o.msg = line("terminate called") + " " + line("  what():") + frame();
  } else if (e.find("Assertion '") != std::string::npos) {
    o.cls = "library-assertion";
    o.msg = line("Assertion '") + frame();
  } else if (WIFSIGNALED(status)) {
    o.cls = "signal-" + std::to_string(WTERMSIG(status));
    o.msg = "killed by a signal";
  } else {
    o.cls = "exit-" + std::to_string(WEXITSTATUS(status));
    o.msg = "the process exited during the execution: " + e.substr(0, 300) + frame();
  }
  return o;
}

void childSetup(bool quiet) {
  if(!getenv("SIM_ERR")) dup2(errFd, 2);
  if (quiet) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  signal(SIGPROF, onTimer);
}

// One execution in its own process.
Outcome isolated(const Replay &r, Replay &rec, bool trace) {
  (void)!ftruncate(errFd, 0);
  lseek(errFd, 0, SEEK_SET);
  int p[2];
  if (pipe(p) != 0) {
    exit(3);
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    childSetup(!trace);
    signal(SIGALRM, onStall);
    alarm(400);
    const auto *sc = find(r.prop);
    Sim s;
    s.trace = trace;
    s.faulty = r.faulty;
    s.thorough = r.thorough;
    for (int i = 0; i < 3; i++) {
      s.ch[i].replay(r.ch[i]);
    }
    Outcome o = execute(*sc, s);
    std::string out = (o.ok ? "K" : "V") + o.cls + "\n" + o.msg;
    (void)!::write(p[1], out.data(), out.size());
    fflush(stdout);
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char b[4096];
  ssize_t n;
  while ((n = ::read(p[0], b, sizeof b)) > 0) {
    out.append(b, (size_t)n);
  }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (!out.empty()) {
    o.ok = out[0] == 'K';
    auto q = out.find('\n');
    o.cls = out.substr(1, q - 1);
    o.msg = out.substr(q + 1);
  } else {
    o = classify(st);
  }
  rec = r;
  rec.cls = o.cls;
  rec.msg = o.msg;
  rec.hash = sim::mirror->hash;
  for (int i = 0; i < 3; i++) {
    rec.ch[i].assign(sim::mirror->data[i], sim::mirror->data[i] + sim::mirror->n[i]);
  }
  return o;
}

std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += " ";
    } else {
      o += c;
    }
  }
  return o;
}

int cmdRun(int argc, char **argv) {
  // run PROP SEED FROM TO STEP OFFSET THOROUGH TIMECAP OUT REPLAYDIR MAXVIOL
  std::string prop = argv[2];
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  uint64_t from = strtoull(argv[4], nullptr, 10), to = strtoull(argv[5], nullptr, 10);
  uint64_t step = strtoull(argv[6], nullptr, 10), off = strtoull(argv[7], nullptr, 10);
  bool thorough = atoi(argv[8]) != 0;
  double cap = atof(argv[9]);
  std::string outPath = argv[10], dir = argv[11];
  int maxV = argc > 12 ? atoi(argv[12]) : 3;
  const auto *sc = find(prop);
  if (sc == nullptr) {
    fprintf(stderr, "no scenario for %s\n", prop.c_str());
    return 3;
  }
  int out = open(outPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  double t0 = realNow();
  int viol = 0;
  // Every execution gets a process of its own: whatever it leaves behind in static storage or in
  // the heap cannot reach the next one, and a replay starts from the same state.
  for (uint64_t k = from + off; k < to && viol < maxV && realNow() - t0 < cap; k += step) {
    (void)!ftruncate(errFd, 0);
    lseek(errFd, 0, SEEK_SET);
    sim::mirror->idx = k;
    pid_t pid = fork();
    if (pid == 0) {
      childSetup(true);
      signal(SIGALRM, onStall);
      alarm(400);
      Sim s;
      s.thorough = thorough;
      s.faulty = k % 4 != 0;
      uint64_t base = mix(seed ^ mix(sim::fnv(prop)) ^ mix(k * 3 + 1));
      for (int i = 0; i < 3; i++) {
        s.ch[i].seed(mix(base + (uint64_t)i));
      }
      double tr = realNow();
      Outcome o = execute(*sc, s);
      std::ostringstream l;
      if (!o.ok) {
        Replay r;
        r.prop = prop;
        r.faulty = s.faulty;
        r.thorough = thorough;
        r.cls = o.cls;
        r.msg = o.msg;
        r.hash = s.hash;
        for (int i = 0; i < 3; i++) {
          r.ch[i] = s.ch[i].rec;
        }
        std::string path = dir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(k) + ".replay";
        save(path, r);
        l << "V\t" << k << "\t" << s.faulty << "\t" << o.cls << "\t" << path << "\t" << esc(o.msg) << "\n";
      } else {
        l << "R\t" << k << "\t" << s.faulty << "\t" << std::hex << s.hash << std::dec << "\t"
          << s.events << "\t" << s.simTime << "\t";
        for (auto &kv : s.count) {
          l << kv.first << "=" << kv.second << ";";
        }
        l << "\t" << std::hex;
        for (auto h : s.states) {
          l << h << ",";
        }
        l << std::dec << "\t" << (long)(1000 * (realNow() - tr)) << "\n";
      }
      std::string t = l.str();
      (void)!::write(out, t.data(), t.size());
      _exit(o.ok ? 0 : 42);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      continue;
    }
    viol++;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
      continue;
    }
    Outcome o = classify(st);
    Replay r;
    r.prop = prop;
    r.thorough = thorough;
    r.faulty = k % 4 != 0;
    r.cls = o.cls;
    r.msg = o.msg;
    r.hash = sim::mirror->hash;
    for (int i = 0; i < 3; i++) {
      r.ch[i].assign(sim::mirror->data[i], sim::mirror->data[i] + sim::mirror->n[i]);
    }
    std::string path = dir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(k) + ".replay";
    save(path, r);
    std::string l = "V\t" + std::to_string(k) + "\t" + (r.faulty ? "1" : "0") + "\t" + o.cls + "\t" + path +
                    "\t" + esc(o.msg) + "\n";
    (void)!::write(out, l.data(), l.size());
  }
  close(out);
  return 0;
}

int cmdReplay(int argc, char **argv) {
  Replay r, rec;
  if (!load(argv[2], r) || find(r.prop) == nullptr) {
    fprintf(stderr, "cannot load %s\n", argv[2]);
    return 3;
  }
  bool trace = argc > 3 && std::string(argv[3]) == "--trace";
  Outcome o = isolated(r, rec, trace);
  printf("OUTCOME %s\t%s\t%llx\t%s\n", o.ok ? "ok" : "violation", o.cls.c_str(),
         (unsigned long long)rec.hash, esc(o.msg).c_str());
  return o.ok ? 0 : 1;
}

int cmdShrink(char **argv) {
  Replay r, rec;
  if (!load(argv[2], r)) {
    return 3;
  }
  double cap = atof(argv[4]);
  double t0 = realNow();
  Outcome o = isolated(r, rec, false);
  if (o.ok) {
    return 4;
  }
  std::string cls = o.cls;
  Replay best = rec;
  cpuLimit = cls == "hang" ? 6 : 40;
  int tries = 0;
  auto attempt = [&](const Replay &c) {
    if (realNow() - t0 > cap || tries > 4000) {
      return false;
    }
    tries++;
    Replay got;
    Outcome x = isolated(c, got, false);
    if (x.ok || x.cls != cls) {
      return false;
    }
    size_t a = 0, b = 0;
    uint64_t sa = 0, sb = 0;
    for (int i = 0; i < 3; i++) {
      a += got.ch[i].size();
      b += best.ch[i].size();
      for (auto v : got.ch[i]) {
        sa += v;
      }
      for (auto v : best.ch[i]) {
        sb += v;
      }
    }
    if (a < b || (a == b && sa < sb)) {
      best = got;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && realNow() - t0 < cap) {
    progress = false;
    for (int pass = 0; pass < 3; pass++) {
      int i = (2 - pass) % 3; // faults first, then schedule, then content
      for (size_t blk = std::max<size_t>(1, best.ch[i].size() / 2); blk >= 1; blk /= 2) {
        for (size_t at = 0; at < best.ch[i].size();) {
          Replay c = best;
          auto &v = c.ch[i];
          size_t n = std::min(blk, v.size() - at);
          v.erase(v.begin() + (long)at, v.begin() + (long)(at + n));
          if (attempt(c)) {
            progress = true;
            continue;
          }
          c = best;
          bool nz = false;
          for (size_t k = at; k < at + n && k < c.ch[i].size(); k++) {
            nz = nz || c.ch[i][k] != 0;
            c.ch[i][k] = 0;
          }
          if (nz && attempt(c)) {
            progress = true;
          }
          at += blk;
          if (realNow() - t0 > cap) {
            break;
          }
        }
        if (blk == 1) {
          break;
        }
      }
      for (size_t k = 0; k < best.ch[i].size(); k++) {
        while (k < best.ch[i].size() && best.ch[i][k] > 1) {
          Replay c = best;
          c.ch[i][k] /= 2;
          if (!attempt(c)) {
            break;
          }
          progress = true;
        }
      }
    }
  }
  // trailing zeros are implied
  for (auto &v : best.ch) {
    while (!v.empty() && v.back() == 0) {
      v.pop_back();
    }
  }
  Replay fin;
  cpuLimit = 40;
  Outcome x = isolated(best, fin, false);
  if (x.ok || x.cls != cls) {
    return 5;
  }
  best.cls = x.cls;
  best.msg = x.msg;
  best.hash = fin.hash;
  save(argv[3], best);
  printf("tries %d\n", tries);
  return 0;
}
} // namespace

int main(int argc, char **argv) {
  int cur = personality(0xffffffff);
  if (cur != -1 && (cur & ADDR_NO_RANDOMIZE) == 0 && getenv("SIM_REEXEC") == nullptr) {
    if (personality((unsigned long)cur | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  setenv("TZ", "UTC", 1);
  sim::mirror = (Mirror *)mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE,
                               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char tmpl[] = "/tmp/hapticsim-XXXXXX";
  errFd = mkstemp(tmpl);
  unlink(tmpl);
  if (argc >= 2 && std::string(argv[1]) == "list") {
    for (const auto &s : sim::scenarios()) {
      printf("%s %d %d\n", s.id, s.quickRuns, s.thoroughRuns);
    }
    return 0;
  }
  if (argc >= 12 && std::string(argv[1]) == "run") {
    return cmdRun(argc, argv);
  }
  if (argc >= 3 && std::string(argv[1]) == "replay") {
    return cmdReplay(argc, argv);
  }
  if (argc >= 5 && std::string(argv[1]) == "shrink") {
    return cmdShrink(argv);
  }
  fprintf(stderr, "usage: hapticsim list|run|replay|shrink\n");
  return 3;
}
