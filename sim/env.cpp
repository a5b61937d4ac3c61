#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "env.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace env {
Heap heap;
Disk disk;
Clock clock;
uint64_t switches = 0;
static thread_local int noYield = 0; // inside the harness or a guard

void arm(uint64_t failAt) {
  heap.count = 0;
  heap.failAt = failAt;
  heap.failed = false;
  heap.armed = true;
}
void disarm() { heap.armed = false; }

__attribute__((noinline)) void paintStack(unsigned char b) {
  volatile unsigned char buf[96 * 1024];
  for (size_t i = 0; i < sizeof buf; i += 1) {
    buf[i] = b;
  }
}

static void *allocate(size_t n, bool nothrow) {
  if (heap.armed) {
    yieldPoint();
    heap.count++;
    if (heap.failAt != 0 && heap.count == heap.failAt) {
      heap.failed = true;
      if (nothrow) {
        return nullptr;
      }
      throw std::bad_alloc();
    }
  }
  if (heap.cap != 0 && heap.live + n > heap.cap) {
    static const char m[] = "SIM-MEMORY-CAP\n";
    (void)!::write(2, m, sizeof m - 1);
    _exit(86);
  }
  void *p = malloc(n ? n : 1);
  if (!p) {
    if (nothrow) {
      return nullptr;
    }
    throw std::bad_alloc();
  }
  heap.live += malloc_usable_size(p);
  if (heap.fill >= 0) {
    memset(p, heap.fill, n);
  }
  return p;
}
static void release(void *p) {
  if (p) {
    heap.live -= malloc_usable_size(p);
    free(p);
  }
}
} // namespace env

void *operator new(size_t n) { return env::allocate(n, false); }
void *operator new[](size_t n) { return env::allocate(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return env::allocate(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return env::allocate(n, true); }
void operator delete(void *p) noexcept { env::release(p); }
void operator delete[](void *p) noexcept { env::release(p); }
void operator delete(void *p, size_t) noexcept { env::release(p); }
void operator delete[](void *p, size_t) noexcept { env::release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { env::release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { env::release(p); }

// ---------------------------------------------------------------- disk
namespace env {
namespace {
constexpr int FD_BASE = 1 << 20;
struct OpenFile {
  std::string path;
  int64_t pos = 0;
  bool rd = false, wr = false, app = false;
  FILE *fp = nullptr;
};
std::map<int, OpenFile> *fds() {
  static auto *m = new std::map<int, OpenFile>();
  return m;
}
std::map<FILE *, int> *fps() {
  static auto *m = new std::map<FILE *, int>();
  return m;
}
int nextFd = FD_BASE;

// harness sections must not be counted, failed or preempted
struct Quiet {
  bool a;
  Quiet() : a(heap.armed) {
    heap.armed = false;
    noYield++;
  }
  ~Quiet() {
    noYield--;
    heap.armed = a;
  }
};

template <class F> F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
bool isSim(const char *p) { return p != nullptr && strncmp(p, ROOT, strlen(ROOT)) == 0; }
bool isFake(int fd) { return fd >= FD_BASE; }
OpenFile *get(int fd) {
  auto it = fds()->find(fd);
  return it == fds()->end() ? nullptr : &it->second;
}

int simOpen(const char *path, bool rd, bool wr, bool create, bool trunc, bool app, bool excl) {
  int idx = disk.opens++;
  if (disk.plan.failOpen == idx) {
    disk.firedOpen++;
    errno = disk.plan.openErrno;
    return -1;
  }
  auto it = disk.files.find(path);
  if (it == disk.files.end()) {
    if (!create) {
      errno = ENOENT;
      return -1;
    }
    if (!disk.crashed) {
      disk.files[path] = "";
    }
  } else {
    if (excl) {
      errno = EEXIST;
      return -1;
    }
    if (trunc && !disk.crashed) {
      it->second.clear();
    }
  }
  int fd = nextFd++;
  OpenFile f;
  f.path = path;
  f.rd = rd;
  f.wr = wr;
  f.app = app;
  (*fds())[fd] = f;
  disk.openNow++;
  disk.opened++;
  return fd;
}

size_t fragment(size_t n) {
  if (!disk.plan.frag || n <= 1 || disk.s == nullptr) {
    return n;
  }
  auto &c = disk.s->s();
  uint32_t mode = c.draw(4);
  size_t k = n;
  if (mode == 1) {
    k = 1 + c.draw((uint32_t)std::min<size_t>(n, 64));
  } else if (mode == 2) {
    k = 1 + c.draw((uint32_t)n);
  } else if (mode == 3) {
    k = n - 1;
  }
  k = std::min(k, n);
  if (k < n) {
    disk.firedShort++;
  }
  return k;
}
bool interrupted() {
  if (disk.plan.eintr && disk.s != nullptr && disk.s->s().draw(6) == 5) {
    disk.firedEintr++;
    errno = EINTR;
    return true;
  }
  return false;
}

ssize_t simRead(int fd, void *buf, size_t n, bool mayInterrupt) {
  OpenFile *f = get(fd);
  if (f == nullptr || !f->rd) {
    errno = EBADF;
    return -1;
  }
  disk.reads++;
  if (mayInterrupt && interrupted()) {
    return -1;
  }
  auto it = disk.files.find(f->path);
  int64_t size = it == disk.files.end() ? 0 : (int64_t)it->second.size();
  int64_t avail = std::max<int64_t>(0, size - f->pos);
  size_t k = (size_t)std::min<int64_t>((int64_t)n, avail);
  if (disk.plan.failReadAt >= 0 && n > 0) {
    int64_t left = disk.plan.failReadAt - disk.bytesRead;
    if (left <= 0) {
      disk.firedRead++;
      errno = EIO;
      return -1;
    }
    k = (size_t)std::min<int64_t>((int64_t)k, left);
  }
  if (k > 0) {
    k = fragment(k);
    memcpy(buf, it->second.data() + f->pos, k);
    f->pos += (int64_t)k;
    disk.bytesRead += (int64_t)k;
  }
  return (ssize_t)k;
}
ssize_t simWrite(int fd, const void *buf, size_t n, bool mayInterrupt) {
  OpenFile *f = get(fd);
  if (f == nullptr || !f->wr) {
    errno = EBADF;
    return -1;
  }
  disk.writes++;
  if (mayInterrupt && interrupted()) {
    return -1;
  }
  if (n == 0) {
    return 0;
  }
  size_t k = fragment(n);
  if (disk.plan.failWriteAt >= 0) {
    int64_t left = disk.plan.failWriteAt - disk.bytesWritten;
    if (left <= 0) {
      disk.firedWrite++;
      errno = disk.plan.writeErrno;
      return -1;
    }
    k = (size_t)std::min<int64_t>((int64_t)k, left);
  }
  size_t keep = k;
  if (disk.crashed) {
    keep = 0;
  } else if (disk.plan.crashAt >= 0 && disk.bytesWritten + (int64_t)k >= disk.plan.crashAt) {
    keep = (size_t)std::max<int64_t>(0, disk.plan.crashAt - disk.bytesWritten);
  }
  auto it = disk.files.find(f->path);
  if (it != disk.files.end() && keep > 0) {
    if (f->app) {
      f->pos = (int64_t)it->second.size();
    }
    if ((int64_t)it->second.size() < f->pos + (int64_t)keep) {
      it->second.resize((size_t)f->pos + keep);
    }
    memcpy(&it->second[(size_t)f->pos], buf, keep);
  }
  f->pos += (int64_t)k;
  disk.bytesWritten += (int64_t)k;
  if (disk.plan.crashAt >= 0 && disk.bytesWritten >= disk.plan.crashAt) {
    disk.crashed = true;
  }
  return (ssize_t)k;
}
off64_t simSeek(int fd, off64_t off, int whence) {
  OpenFile *f = get(fd);
  if (f == nullptr) {
    errno = EBADF;
    return -1;
  }
  int idx = disk.seeks++;
  if (disk.plan.failSeek == idx) {
    disk.firedSeek++;
    errno = EIO;
    return -1;
  }
  auto it = disk.files.find(f->path);
  int64_t size = it == disk.files.end() ? 0 : (int64_t)it->second.size();
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->pos : size;
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  f->pos = base + off;
  return f->pos;
}
int simClose(int fd) {
  OpenFile *f = get(fd);
  if (f == nullptr) {
    disk.badCloses++;
    errno = EBADF;
    return -1;
  }
  int idx = disk.closes++;
  int rc = 0;
  if (disk.plan.failClose == idx) {
    disk.firedClose++;
    if (disk.plan.closeLosesTail && f->wr) {
      auto it = disk.files.find(f->path);
      if (it != disk.files.end() && !it->second.empty()) {
        it->second.resize(it->second.size() / 2);
      }
    }
    errno = EIO;
    rc = -1;
  }
  fds()->erase(fd);
  disk.openNow--;
  return rc;
}
void simStat(const std::string &path, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = (off_t)disk.files[path].size();
  st->st_blksize = 4096;
}

ssize_t ckRead(void *c, char *b, size_t n) {
  yieldPoint();
  Quiet q;
  return simRead((int)(intptr_t)c, b, n, false);
}
ssize_t ckWrite(void *c, const char *b, size_t n) {
  yieldPoint();
  Quiet q;
  ssize_t r = simWrite((int)(intptr_t)c, b, n, false);
  return r < 0 ? 0 : r; // fopencookie: 0 signals an error
}
int ckSeek(void *c, off64_t *o, int w) {
  Quiet q;
  off64_t r = simSeek((int)(intptr_t)c, *o, w);
  if (r < 0) {
    return -1;
  }
  *o = r;
  return 0;
}
int ckClose(void *c) {
  Quiet q;
  return simClose((int)(intptr_t)c);
}

FILE *simFopen(const char *path, const char *mode) {
  Quiet q;
  bool plus = strchr(mode, '+') != nullptr;
  bool excl = strchr(mode, 'x') != nullptr;
  bool rd = mode[0] == 'r' || plus;
  bool wr = mode[0] != 'r' || plus;
  int fd = simOpen(path, rd, wr, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a', excl);
  if (fd < 0) {
    return nullptr;
  }
  cookie_io_functions_t io{ckRead, ckWrite, ckSeek, ckClose};
  std::string m;
  m += mode[0];
  if (plus) {
    m += "+";
  }
  int e = errno;
  FILE *fp = fopencookie((void *)(intptr_t)fd, m.c_str(), io);
  errno = e;
  get(fd)->fp = fp;
  (*fps())[fp] = fd;
  return fp;
}
} // namespace

void diskReset(sim::Sim &s) {
  disk = Disk();
  disk.s = &s;
  for (auto &p : std::map<FILE *, int>(*fps())) {
    ::fclose(p.first);
  }
  fps()->clear();
  fds()->clear();
  disk.openNow = 0;
}
void diskBegin(const DiskPlan &p) {
  disk.plan = p;
  disk.bytesRead = disk.bytesWritten = 0;
  disk.opens = disk.opened = disk.closes = disk.badCloses = disk.seeks = disk.reads = disk.writes = 0;
  disk.crashed = false;
  disk.firedShort = disk.firedEintr = disk.firedRead = disk.firedWrite = disk.firedOpen =
      disk.firedClose = disk.firedSeek = 0;
}
void diskEnd() {
  if (disk.s != nullptr) {
    auto &s = *disk.s;
    if (disk.firedShort) s.hit("fault:short_io", disk.firedShort);
    if (disk.firedEintr) s.hit("fault:eintr", disk.firedEintr);
    if (disk.firedRead) s.hit("fault:read_eio", disk.firedRead);
    if (disk.firedWrite) s.hit(disk.plan.writeErrno == ENOSPC ? "fault:disk_full" : "fault:write_eio", disk.firedWrite);
    if (disk.firedOpen) s.hit("fault:open_error", disk.firedOpen);
    if (disk.firedClose) s.hit("fault:close_error", disk.firedClose);
    if (disk.firedSeek) s.hit("fault:seek_error", disk.firedSeek);
    if (disk.crashed) s.hit("fault:crash_in_write");
    char b[160];
    snprintf(b, sizeof b, "disk r=%lld w=%lld opens=%d closes=%d seeks=%d faults=%d short=%d",
             (long long)disk.bytesRead, (long long)disk.bytesWritten, disk.opens, disk.closes,
             disk.seeks, (int)disk.hardFault(), disk.firedShort);
    s.log(b);
  }
  disk.plan = DiskPlan();
}
} // namespace env

extern "C" {
#define YIELD_IO() env::yieldPoint()
FILE *fopen64(const char *p, const char *m) {
  if (env::isSim(p)) {
    YIELD_IO();
    return env::simFopen(p, m);
  }
  static auto f = env::real<FILE *(*)(const char *, const char *)>("fopen64");
  return f(p, m);
}
FILE *fopen(const char *p, const char *m) {
  if (env::isSim(p)) {
    YIELD_IO();
    return env::simFopen(p, m);
  }
  static auto f = env::real<FILE *(*)(const char *, const char *)>("fopen");
  return f(p, m);
}
int fclose(FILE *fp) {
  {
    env::Quiet q;
    env::fps()->erase(fp);
  }
  static auto f = env::real<int (*)(FILE *)>("fclose");
  env::Quiet q;
  return f(fp);
}
int fileno(FILE *fp) {
  auto it = env::fps()->find(fp);
  if (it != env::fps()->end()) {
    return it->second;
  }
  static auto f = env::real<int (*)(FILE *)>("fileno");
  return f(fp);
}
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (env::isSim(p)) {
    env::Quiet q;
    int acc = flags & O_ACCMODE;
    return env::simOpen(p, acc != O_WRONLY, acc != O_RDONLY, (flags & O_CREAT) != 0,
                        (flags & O_TRUNC) != 0, (flags & O_APPEND) != 0, (flags & O_EXCL) != 0);
  }
  static auto f = env::real<int (*)(const char *, int, ...)>("open");
  return f(p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return open(p, flags, mode);
}
int close(int fd) {
  if (env::isFake(fd)) {
    env::Quiet q;
    return env::simClose(fd);
  }
  static auto f = env::real<int (*)(int)>("close");
  return f(fd);
}
ssize_t read(int fd, void *b, size_t n) {
  if (env::isFake(fd)) {
    YIELD_IO();
    env::Quiet q;
    return env::simRead(fd, b, n, true);
  }
  static auto f = env::real<ssize_t (*)(int, void *, size_t)>("read");
  return f(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (env::isFake(fd)) {
    YIELD_IO();
    env::Quiet q;
    return env::simWrite(fd, b, n, true);
  }
  static auto f = env::real<ssize_t (*)(int, const void *, size_t)>("write");
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (env::isFake(fd)) {
    YIELD_IO();
    env::Quiet q;
    std::string all;
    for (int i = 0; i < c; i++) {
      all.append((const char *)v[i].iov_base, v[i].iov_len);
    }
    return env::simWrite(fd, all.data(), all.size(), true);
  }
  static auto f = env::real<ssize_t (*)(int, const struct iovec *, int)>("writev");
  return f(fd, v, c);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept {
  if (env::isFake(fd)) {
    env::Quiet q;
    return env::simSeek(fd, o, w);
  }
  static auto f = env::real<off64_t (*)(int, off64_t, int)>("lseek64");
  return f(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
int fsync(int fd) {
  if (env::isFake(fd)) {
    return 0;
  }
  static auto f = env::real<int (*)(int)>("fsync");
  return f(fd);
}
int ftruncate(int fd, off_t len) noexcept {
  if (env::isFake(fd)) {
    env::Quiet q;
    auto *o = env::get(fd);
    if (o && !env::disk.crashed) {
      env::disk.files[o->path].resize((size_t)len);
    }
    return 0;
  }
  static auto f = env::real<int (*)(int, off_t)>("ftruncate");
  return f(fd, len);
}
int fstat(int fd, struct stat *st) noexcept {
  if (env::isFake(fd)) {
    env::Quiet q;
    auto *o = env::get(fd);
    if (!o) {
      errno = EBADF;
      return -1;
    }
    env::simStat(o->path, st);
    return 0;
  }
  static auto f = env::real<int (*)(int, struct stat *)>("fstat");
  return f(fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) noexcept {
  if (env::isSim(p)) {
    env::Quiet q;
    if (env::disk.files.find(p) == env::disk.files.end()) {
      errno = ENOENT;
      return -1;
    }
    env::simStat(p, st);
    return 0;
  }
  static auto f = env::real<int (*)(const char *, struct stat *)>("stat");
  return f(p, st);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept {
  if (env::isSim(p)) {
    return stat(p, st);
  }
  static auto f = env::real<int (*)(const char *, struct stat *)>("lstat");
  return f(p, st);
}
int access(const char *p, int m) noexcept {
  if (env::isSim(p)) {
    env::Quiet q;
    if (env::disk.files.find(p) == env::disk.files.end()) {
      errno = ENOENT;
      return -1;
    }
    return 0;
  }
  static auto f = env::real<int (*)(const char *, int)>("access");
  return f(p, m);
}
int unlink(const char *p) noexcept {
  if (env::isSim(p)) {
    env::Quiet q;
    if (env::disk.crashed) {
      return 0;
    }
    if (env::disk.files.erase(p) == 0) {
      errno = ENOENT;
      return -1;
    }
    return 0;
  }
  static auto f = env::real<int (*)(const char *)>("unlink");
  return f(p);
}
int remove(const char *p) noexcept {
  if (env::isSim(p)) {
    return unlink(p);
  }
  static auto f = env::real<int (*)(const char *)>("remove");
  return f(p);
}
int rename(const char *a, const char *b) noexcept {
  if (env::isSim(a)) {
    env::Quiet q;
    if (env::disk.crashed) {
      return 0;
    }
    auto it = env::disk.files.find(a);
    if (it == env::disk.files.end()) {
      errno = ENOENT;
      return -1;
    }
    std::string d = it->second;
    env::disk.files.erase(it);
    env::disk.files[b] = d;
    return 0;
  }
  static auto f = env::real<int (*)(const char *, const char *)>("rename");
  return f(a, b);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (env::isFake(fd)) {
    errno = ENOTTY;
    return -1;
  }
  static auto f = env::real<int (*)(int, unsigned long, ...)>("ioctl");
  return f(fd, req, arg);
}
int poll(struct pollfd *p, nfds_t n, int t) {
  if (n == 1 && env::isFake(p->fd)) {
    p->revents = (short)(p->events & (POLLIN | POLLOUT));
    return 1;
  }
  static auto f = env::real<int (*)(struct pollfd *, nfds_t, int)>("poll");
  return f(p, n, t);
}

// ---------------------------------------------------------------- clock and randomness
static void tick(struct timespec *ts) {
  auto &c = env::clock;
  c.calls++;
  int64_t total = c.nsec + c.step;
  c.now += total / 1000000000;
  c.nsec = total % 1000000000;
  if (c.nsec < 0) {
    c.nsec += 1000000000;
    c.now--;
  }
  ts->tv_sec = c.now;
  ts->tv_nsec = c.nsec;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (env::clock.active) {
    tick(ts);
    return 0;
  }
  static auto f = env::real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
  return f(id, ts);
}
time_t time(time_t *t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) {
    *t = ts.tv_sec;
  }
  return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
static uint64_t rnd() {
  uint64_t z = (env::clock.rnd += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  return z ^ (z >> 27);
}
int rand() noexcept { return (int)(rnd() & 0x7fffffff); }
long random() noexcept { return (long)(rnd() & 0x7fffffff); }
ssize_t getrandom(void *b, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) {
    ((unsigned char *)b)[i] = (unsigned char)rnd();
  }
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
unsigned sim_random_device(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned sim_random_device(void *) { return (unsigned)rnd(); }

// static-initialisation guards: never preempt while one is held
int __cxa_guard_acquire(long long int *g) {
  static auto f = env::real<int (*)(long long int *)>("__cxa_guard_acquire");
  int r = f(g);
  if (r != 0) {
    env::noYield++;
  }
  return r;
}
void __cxa_guard_release(long long int *g) {
  static auto f = env::real<void (*)(long long int *)>("__cxa_guard_release");
  f(g);
  env::noYield--;
}
void __cxa_guard_abort(long long int *g) {
  static auto f = env::real<void (*)(long long int *)>("__cxa_guard_abort");
  f(g);
  env::noYield--;
}
}

// ---------------------------------------------------------------- threads
namespace env {
namespace {
struct Sched {
  sim::Sim *s = nullptr;
  bool active = false;
  std::vector<bool> alive;
  int current = -1;
  uint32_t slice = 0, maxSlice = 1;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  std::vector<sim::Violation> bad;
};
Sched sched;
thread_local int me = -1;

// caller holds the baton
void pickNext() {
  std::vector<int> r;
  for (size_t i = 0; i < sched.alive.size(); i++) {
    if (sched.alive[i]) {
      r.push_back((int)i);
    }
  }
  if (r.empty()) {
    sched.current = -1;
    return;
  }
  int n = r[sched.s->s().draw((uint32_t)r.size())];
  uint32_t mode = sched.s->s().draw(3);
  sched.slice = 1 + sched.s->s().draw(mode == 0 ? sched.maxSlice : mode == 1 ? 64 : 4);
  sched.current = n;
}
struct Arg {
  int id;
  std::function<void()> *fn;
};
void *body(void *p) {
  auto *a = (Arg *)p;
  pthread_mutex_lock(&sched.m);
  while (sched.current != a->id) {
    pthread_cond_wait(&sched.cv, &sched.m);
  }
  pthread_mutex_unlock(&sched.m);
  me = a->id;
  heap.armed = true;
  try {
    (*a->fn)();
  } catch (sim::Violation &v) {
    Quiet q;
    sched.bad.push_back(v);
  } catch (std::exception &e) {
    Quiet q;
    sched.bad.push_back(sim::Violation{"exception-in-thread", e.what()});
  }
  // nothing shared is touched once the baton has been passed on
  heap.armed = false;
  me = -1;
  noYield++;
  pthread_mutex_lock(&sched.m);
  sched.alive[(size_t)a->id] = false;
  pickNext();
  pthread_cond_broadcast(&sched.cv);
  pthread_mutex_unlock(&sched.m);
  return nullptr;
}
} // namespace

void yieldPoint() {
  if (!sched.active || me < 0 || noYield > 0) {
    return;
  }
  if (--sched.slice > 0) {
    return;
  }
  Quiet q;
  pthread_mutex_lock(&sched.m);
  pickNext();
  if (sched.current != me) {
    switches++;
    pthread_cond_broadcast(&sched.cv);
    while (sched.current != me) {
      pthread_cond_wait(&sched.cv, &sched.m);
    }
  }
  pthread_mutex_unlock(&sched.m);
}

void runThreads(sim::Sim &s, std::vector<std::function<void()>> tasks, uint32_t maxSlice) {
  sched.s = &s;
  sched.alive.assign(tasks.size(), true);
  sched.maxSlice = maxSlice;
  sched.bad.clear();
  sched.current = -1;
  sched.active = true;
  std::vector<Arg> args(tasks.size());
  std::vector<pthread_t> th(tasks.size());
  for (size_t i = 0; i < tasks.size(); i++) {
    args[i] = {(int)i, &tasks[i]};
    pthread_create(&th[i], nullptr, body, &args[i]);
  }
  pthread_mutex_lock(&sched.m);
  pickNext();
  pthread_cond_broadcast(&sched.cv);
  pthread_mutex_unlock(&sched.m);
  for (auto &t : th) {
    pthread_join(t, nullptr);
  }
  sched.active = false;
  heap.armed = false;
  if (!sched.bad.empty()) {
    s.fail(sched.bad[0].cls, sched.bad[0].msg);
  }
}
} // namespace env

// Locks of the code under test: no preemption while one is held, so no thread ever waits for one.
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  static auto f = env::real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  int r = f(m);
  if (r == 0 && m != &env::sched.m) {
    env::noYield++;
  }
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static auto f = env::real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  int r = f(m);
  if (r == 0) {
    env::noYield++;
  }
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static auto f = env::real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  int r = f(m);
  if (r == 0 && m != &env::sched.m) {
    env::noYield--;
  }
  return r;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  static auto f = env::real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
  env::noYield++;
  int r = f(o, fn);
  env::noYield--;
  return r;
}
// every basic block of the code under test
void __sanitizer_cov_trace_pc() {
  if (__builtin_expect(env::sched.active, 0)) {
    env::yieldPoint();
  }
}
}
